"""P21: qubit operator algebra is exact matrix algebra."""
import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs

FACS = ("X", "Y", "Z", "A", "C", "P0", "P1")


def matrix(M):
    import numpy as np
    return np.array([[complex(*e) for e in row] for row in M["m"]]) / 2 ** M["sc"]


def near(a, b):
    import numpy as np
    return a.shape == b.shape and np.abs(a - b).max() < 1e-7


class P21(Check):
    pid = "P21"
    method = "spawn"
    rule = ("A case is one program over operator registers (sums, products, scalars, adjoints, powers, commutators, conversions, in-place updates) generated by TLC "
            "from OpAlg.tla with the exact matrix of every register; non-trivial: at least two steps.")
    assumptions = ["floating point coefficients compared to 1e-7; operators on up to four qubits"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        ex = dict(Sampling=False, MaxN=1, MinLen=3, MaxLen=3, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="OpAlg", consts=ex, workers=2, invariants=["Laws"])]
        kw = dict(depth=60, out_const="OutFile")
        out += simulate_jobs("OpAlg", dict(Sampling=True, MaxN=3, MinLen=2, MaxLen=9, Profile="mixed"), 2400 * f, 3, SEED, tag="mixed", **kw)
        out += simulate_jobs("OpAlg", dict(Sampling=True, MaxN=4, MinLen=2, MaxLen=8, Profile="pauli"), 500 * f, 2, SEED + 9, tag="pauli", **kw)
        return out

    def trivial(self, c):
        return len(c["toks"]) < 2

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import numpy as np
        from scipy.sparse import csr_matrix
        from qrisp import operators as ops
        from qrisp.operators.qubit import QubitOperator
        from qrisp.operators.qubit.qubit_term import QubitTerm
        n, rs = c["n"], c["_rs"]
        one = QubitOperator({QubitTerm(): 1})

        def num(v, k):
            z = complex(*v)
            if z.imag:
                return z if k % 2 else np.complex128(z)
            return [int(z.real), float(z.real), z, np.float64(z.real)][k % 4]

        def term(fs):
            return QubitTerm({i: f for i, f in enumerate(fs) if f != "I"})

        def build(fs, v, k):
            idx = [i for i in range(n) if fs[i] != "I"]
            if k % 3 == 0:
                return QubitOperator({term(fs): num(v, k)})
            if k % 2:
                idx = idx[::-1]
            r = None
            for i in idx:
                f = getattr(ops, fs[i])(i)
                r = f if r is None else r * f
            return num(v, k // 5) * (one * 1 if r is None else r)
        R = []
        for j, t in enumerate(c["toks"]):
            k, r = t["t"], rs + 11 * j
            a = R[t["a"] - 1] if "a" in t else None
            b = R[t["b"] - 1] if "b" in t else None
            v = num(t["c"], r) if "c" in t else None
            keep = [dict(x.terms_dict) for x in R]
            if k == "term":
                y = build(t["fs"], t["c"], r)
            elif k == "add":
                y = a + b
            elif k == "sub":
                y = a - b
            elif k == "mul":
                y = a * b
            elif k == "comm":
                y = a.commutator(b)
            elif k in ("smul", "muls"):
                y = v * a if k == "smul" else a * v
            elif k in ("sadd", "adds"):
                y = v + a if k == "sadd" else a + v
            elif k == "ssub":
                y = v - a
            elif k == "subs":
                y = a - v
            elif k == "half":
                y = 0.5 * a
            elif k == "adj":
                y = a.adjoint()
            elif k == "herm":
                y = a.hermitize()
            elif k == "pauli":
                y = a.to_pauli()
                if not isinstance(y, QubitOperator):
                    raise Violation("to_pauli returns no operator", f"{y!r} for {a}")
                if any(f not in ("X", "Y", "Z") for x in y.terms_dict for f in x.factor_dict.values()):
                    raise Violation("to_pauli leaves other factors", str(y))
            elif k == "matrix":
                m = a.to_array(n)
                rev = r % 2 == 1
                if rev:
                    m = m.reshape([2] * (2 * n)).transpose(list(range(n))[::-1] + list(range(n, 2 * n))[::-1]).reshape(2 ** n, 2 ** n)
                y = QubitOperator.from_matrix(csr_matrix(m) if r % 3 else m, reverse_endianness=rev)
            elif k == "numpy":
                y = QubitOperator.from_numpy_array(a.to_array(n)) + 0 * one
            elif k == "copy":
                y = a * 1
            elif k == "thr":
                y = a.apply_threshold(1e-9)
            elif k == "pow":
                y = a ** t["k"]
            elif k in ("iadd", "isub", "imul", "iadds", "isubs", "imuls"):
                w = b if b is not None else v
                if k[:4] == "iadd":
                    a += w
                elif k[:4] == "isub":
                    a -= w
                else:
                    a *= w
                R[t["a"] - 1] = a
                keep[t["a"] - 1] = dict(a.terms_dict)
                y = None
            elif k == "rel":
                y = None
                f, g = term(t["f"]), term(t["g"])
                if f.commute(g) != t["commute"] or g.commute(f) != t["commute"]:
                    raise Violation("commute", f"{f} {g}: {not t['commute']}")
                if f.commute_qw(g) != t["qw"]:
                    raise Violation("commute_qw", f"{f} {g}: {not t['qw']}")
                if t["pauli"] and f.commute_pauli(g) != t["commute"]:
                    raise Violation("commute_pauli", f"{f} {g}: {not t['commute']}")
                if f.intersect(g) != t["meet"]:
                    raise Violation("intersect", f"{f} {g}")
            if y is not None:
                R.append(y)
            for i, d in enumerate(keep):
                if d != R[i].terms_dict:
                    raise Violation("operation changes another operator", f"{k} changed register {i + 1}")
        for i, M in enumerate(c["reg"]):
            H, m = R[i], matrix(M)
            if not isinstance(H, QubitOperator):
                raise Violation("result is no operator", f"{type(H).__name__} {H}")
            if not near(H.to_array(n), m):
                raise Violation("wrong matrix", f"register {i + 1}: {H}")
            if len(set(H.terms_dict)) != len(H.terms_dict) or any(np.isnan(x) for x in H.terms_dict.values()):
                raise Violation("terms", str(H))
            k = H.find_minimal_qubit_amount()
            if not near(np.kron(H.to_array(), np.eye(2 ** (n - k))), m):
                raise Violation("wrong minimal matrix", f"register {i + 1}: {H}")
            if rs % 2 == i % 2:
                T = {x: QubitOperator({x: 1}).to_array(n) for x in H.terms_dict}
                for name, gs in (("commuting_groups", H.commuting_groups()), ("commuting_qw_groups", H.commuting_qw_groups()),
                                 ("commuting_qw_groups", H.commuting_qw_groups(use_graph_coloring=False))):
                    if sorted(hash(x) for g in gs for x in g.terms_dict) != sorted(hash(x) for x in H.terms_dict):
                        raise Violation(name + " is no partition", str(H))
                    if gs and not near(sum(g.to_array(n) for g in gs), m):
                        raise Violation(name + " changes coefficients", str(H))
                    for g in gs:
                        xs = list(g.terms_dict)
                        for x in xs:
                            for y in xs:
                                if not near(T[x] @ T[y], T[y] @ T[x]):
                                    raise Violation(name + ": terms do not commute", f"{x} {y}")
                if n <= 3:
                    e = H.ground_state_energy()
                    w = np.linalg.eigvalsh((m + m.conj().T) / 2)[0]
                    if abs(e - w) > 1e-5 * max(1, abs(w)):
                        raise Violation("ground state energy", f"{e} instead of {w}: {H}")


CHECK = P21
