"""P22: fermionic operators obey the anticommutation algebra."""
import random

import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs
from checks.p21 import matrix, near


class P22(Check):
    pid = "P22"
    method = "spawn"
    rule = ("A case is either a program over fermionic operator registers with the exact matrix of every register (FermiAlg.tla) or an evolution under a fermionic operator "
            "with the exact resulting states for every order of its terms (FermiTrot.tla); non-trivial: at least two steps or terms.")
    assumptions = ["floating point coefficients compared to 1e-7", "Jordan-Wigner mapping with occupied = 1 and sign strings on the lower modes, as documented"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        ex = dict(Sampling=False, MaxN=2, MinLen=2, MaxLen=2, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="FermiAlg", consts=ex, workers=2, invariants=["CAR"])]
        ex = dict(Sampling=False, MaxN=1, MaxTerms=1, MaxReps=1, Profile="tiny", OutFile="/dev/null")
        out += [dict(module="FermiTrot", consts=ex, workers=2, invariants=["EvolveUnitary", "EvolveInverse"])]
        kw = dict(depth=80, out_const="OutFile")
        out += simulate_jobs("FermiAlg", dict(Sampling=True, MaxN=3, MinLen=2, MaxLen=9, Profile="mixed"), 1200 * f, 2, SEED, tag="mixed", **kw)
        out += simulate_jobs("FermiAlg", dict(Sampling=True, MaxN=4, MinLen=2, MaxLen=6, Profile="real"), 600 * f, 2, SEED + 1, tag="real", **kw)
        out += simulate_jobs("FermiTrot", dict(Sampling=True, MaxN=4, MaxTerms=3, MaxReps=2, Profile="mixed"), 500 * f, 2, SEED + 2, tag="trot", **kw)
        out += simulate_jobs("FermiTrot", dict(Sampling=True, MaxN=4, MaxTerms=1, MaxReps=3, Profile="mixed"), 200 * f, 1, SEED + 3, tag="single", **kw)
        out += simulate_jobs("FermiTrot", dict(Sampling=True, MaxN=6, MaxTerms=3, MaxReps=1, Profile="mixed"), 120 * f, 2, SEED + 4, tag="wide", **kw)
        return out

    def trivial(self, c):
        return len(c["hs"]) < 2 if "trot" in c else len(c["toks"]) < 2

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        if "trot" in c:
            return self.evolve(c)
        import numpy as np
        from qrisp.operators import a as ann, c as cre
        from qrisp.operators.fermionic import FermionicOperator
        from qrisp.operators.fermionic.fermionic_term import FermionicTerm
        n, rs = c["n"], c["_rs"]

        def num(v, k):
            z = complex(*v)
            return z if z.imag else [int(z.real), float(z.real), z, np.float64(z.real)][k % 4]

        def term(ls, v, k=1):
            if k % 3 == 0:  # ladder lists are stored with the factor acting first in front
                return FermionicOperator({FermionicTerm([(i, bool(x)) for i, x in ls[::-1]]): num(v, k)})
            r = None
            for i, x in ls:
                f = (cre if x else ann)(i)
                r = f if r is None else r * f
            return num(v, k // 5) * (FermionicOperator({FermionicTerm(): 1}) if r is None else r)
        R = []
        for j, t in enumerate(c["toks"]):
            k, r = t["t"], rs + 11 * j
            x = R[t["a"] - 1] if "a" in t else None
            b = R[t["b"] - 1] if "b" in t else None
            v = num(t["c"], r) if "c" in t else None
            keep = [dict(z.terms_dict) for z in R]
            y = None
            if k == "term":
                y = term(t["ls"], t["c"], r)
            elif k == "add":
                y = x + b
            elif k == "sub":
                y = x - b
            elif k == "mul":
                y = x * b
            elif k in ("smul", "muls"):
                y = v * x if k == "smul" else x * v
            elif k in ("sadd", "adds"):
                y = v + x if k == "sadd" else x + v
            elif k == "ssub":
                y = v - x
            elif k == "subs":
                y = x - v
            elif k == "neg":
                y = -x
            elif k == "adj":
                y = x.dagger()
            elif k == "herm":
                y = x.hermitize()
            elif k == "reduce":
                y = x.reduce()
                if not y == x or not x == y:
                    raise Violation("reduced operator compares different", f"{x} / {y}")
            elif k == "reduceh":
                y = x.reduce(assume_hermitian=True).hermitize()
            elif k == "thr":
                y = x * 1
                y.apply_threshold(1e-9)
            elif k in ("iadd", "isub", "imul", "iadds", "isubs", "imuls"):
                w = b if b is not None else v
                if k[:4] == "iadd":
                    x += w
                elif k[:4] == "isub":
                    x -= w
                else:
                    x *= w
                if not isinstance(x, FermionicOperator):
                    raise Violation("in-place operation returns no operator", f"{k}: {type(x).__name__}")
                R[t["a"] - 1] = x
                keep[t["a"] - 1] = dict(x.terms_dict)
            elif k == "eq":
                f, g = term(t["f"], [2, 0], r), -1 * term(t["g"], [2, 0], r + 1)
                if not f == g or not g == f:
                    raise Violation("permuted factors compare different", f"{f} / {g}")
                if f == term(t["g"], [2, 0], r):
                    raise Violation("different operators compare equal", f"{f} / -({g})")
            if y is not None:
                R.append(y)
            for i, d in enumerate(keep):
                if d != R[i].terms_dict:
                    raise Violation("operation changes another operator", f"{k} changed register {i + 1}")
        for i, M in enumerate(c["reg"]):
            H, m = R[i], matrix(M)
            if not near(H.to_qubit_operator().to_array(n), m):
                raise Violation("wrong matrix", f"register {i + 1}: {H}")
            s = H.to_sparse_matrix().toarray()
            k = 1
            while k < s.shape[0]:
                k *= 2
            if not near(np.kron(s, np.eye(2 ** n // k)), m):
                raise Violation("wrong sparse matrix", f"register {i + 1}: {H}")
            if n <= 3 and rs % 4 == i % 4:
                e, w = H.ground_state_energy(), np.linalg.eigvalsh((m + m.conj().T) / 2)[0]
                if abs(e - w) > 1e-5 * max(1, abs(w)):
                    raise Violation("ground state energy", f"{e} instead of {w}: {H}")

    def evolve(self, c):
        import numpy as np
        import qrisp as q
        from qrisp.operators import a as ann, c as cre
        from qrisp.operators.fermionic import FermionicOperator
        from qrisp.operators.fermionic.fermionic_term import FermionicTerm
        from checks.p06 import check_state
        n, rs = c["n"], c["_rs"]
        t = [1, 0.5, -1.5, 2][rs % 4]
        iters = c["reps"] if (rs // 4) % 2 else 1
        steps = c["reps"] // iters
        forward = (rs // 8) % 5 != 0
        H = 0
        for j, h in enumerate(c["hs"]):
            v = qlib.ang(h["a"]) * steps / t * (1 if forward else -1)
            if not h["num"]:
                v *= 2 * (1j if h["im"] else 1)
            T = FermionicOperator({FermionicTerm(): 1})
            for i, x in h["ls"]:
                T = T * (cre if x else ann)(i)
            if not h["num"] and (rs >> (8 + j)) % 2:
                H = H + 0.5 * v * T + (0.5 * v * T).dagger()
            else:
                H = H + v * T
        qv = q.QuantumVariable(n)
        qb = [qv[i] for i in range(n)]
        for o in c["prog"]:
            qlib.fn_apply(qb, o)
        s = str(H)
        H.trotterization(forward_evolution=forward)(qv, t=t, steps=steps, iter=iters)
        if str(H) != s:
            raise Violation("evolution changes the operator", s)
        qc = qv.qs.compile()
        err = None
        for o in c["outs"]:
            try:
                check_state(qc, qb, qlib.amps(o), "evolution")
                return
            except Violation as e:
                err = e
        raise Violation("evolution (%s)" % ("commuting terms" if c["comm"] else "no product formula"),
                        f"{s} t={t} steps={steps} iter={iters} forward={forward}: {err}")


CHECK = P22
