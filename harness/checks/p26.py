"""P26: block encodings encode their operator."""
import qlib
from checks.p21 import matrix
from common import Check, SEED, TIER, Violation, simulate_jobs


class P26(Check):
    pid = "P26"
    method = "spawn"
    rule = ("A case is an expression over block encodings (operators, arrays, linear combinations, shifted identities, projectors; sums, products, scalings, tensor products, "
            "adjoints, walks, polynomials) generated by TLC from BlockEnc.tla with its exact matrix; the complete encoded block is read from a run on entangled operands; "
            "non-trivial: at least two nodes.")
    assumptions = ["operands of up to three qubits in total, up to 17 qubits including ancillas", "polynomials compared to 1e-4, everything else to 1e-5"]
    limit = 240

    def specs(self):
        f = 1 if TIER != "thorough" else 6
        ex = dict(Sampling=False, MaxN=1, MinLen=1, MaxLen=2, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="BlockEnc", consts=ex, workers=2, invariants=["Laws"])]
        kw = dict(depth=60, out_const="OutFile")
        out += simulate_jobs("BlockEnc", dict(Sampling=True, MaxN=2, MinLen=1, MaxLen=5, Profile="mixed"), 270 * f, 3, SEED, tag="mixed", **kw)
        out += simulate_jobs("BlockEnc", dict(Sampling=True, MaxN=2, MinLen=2, MaxLen=2, Profile="poly"), 80 * f, 1, SEED + 9, tag="poly", **kw)
        out += simulate_jobs("BlockEnc", dict(Sampling=True, MaxN=1, MinLen=4, MaxLen=4, Profile="prod"), 110 * f, 1, SEED + 17, tag="prod", **kw)
        return out

    def trivial(self, c):
        return len(c["toks"]) < 2

    def prepare(self):
        qlib.warm()

    def build(self, c):
        import numpy as np
        import qrisp as q
        from qrisp.block_encodings import BlockEncoding
        from qrisp.gqsp import GQSVT
        from qrisp.operators.qubit import QubitOperator
        from qrisp.operators.qubit.qubit_term import QubitTerm
        n, rs, reg = c["n"], c["_rs"], []

        def pauli(fs):
            def u(qv):
                for i, f in enumerate(fs):
                    if f != "I":
                        {"X": q.x, "Y": q.y, "Z": q.z}[f](qv[i])
            return u

        def power(w, k):
            def u(*args):
                for _ in range(k):
                    w.unitary(*args)
            return BlockEncoding(1, w._anc_templates, u, num_ops=w.num_ops)

        def cut(p):
            while p[-1] == 0:
                p = p[:-1]
            return np.array(p)
        for t in c["toks"]:
            o = t["t"]
            a = reg[t["a"] - 1] if "a" in t else None
            b = reg[t["b"] - 1] if "b" in t else None
            if o == "oper":
                r = BlockEncoding.from_operator(QubitOperator({QubitTerm({i: f for i, f in enumerate(s["fs"]) if f != "I"}): s["c"][0] for s in t["ts"]}))
            elif o == "array":
                m = matrix(t["A"])
                r = BlockEncoding.from_array(m.real if rs % 2 and not m.imag.any() else m)
            elif o == "lcu":
                cs = np.array([complex(*s["c"]) for s in t["ts"]])
                r = BlockEncoding.from_lcu(cs.real if not cs.imag.any() else cs, [pauli(s["fs"]) for s in t["ts"]])
            elif o == "eye":
                r = BlockEncoding.from_eye(t["d"])
            elif o == "ket":
                r = BlockEncoding.from_projector(t["l"], t["r"])
            elif o == "proj":
                r = BlockEncoding.from_projector(t["l"])
            elif o == "kernel":
                r = BlockEncoding.from_projector(t["l"], kernel=True)
            elif o == "add":
                r = a + b
            elif o == "sub":
                r = a - b
            elif o == "mul":
                r = a @ b
            elif o == "kron":
                r = a.kron(b)
            elif o == "neg":
                r = -a
            elif o == "dag":
                r = a.dagger()
            elif o == "scal":
                f = t["c"][0] / 2 ** t["c"][1]
                r = a * f if rs % 2 else f * a
            elif o == "walk1":
                r = a.qubitization()
            elif o == "walk":
                if abs(float(a.alpha) - t["al"]) > 1e-9:
                    raise Violation("normalisation", f"{a.alpha} instead of {t['al']}")
                r = power(a.qubitization(), t["k"])
                r.alpha = t["al"] ** t["k"]
            elif o == "cheb":
                if abs(float(a.alpha) - t["al"]) > 1e-9:
                    raise Violation("normalisation", f"{a.alpha} instead of {t['al']}")
                h = a if a.is_hermitian else a.qubitization()
                r = h.chebyshev(t["k"], rescale=False)
                if t["k"] > 1:
                    r.alpha = r.alpha * t["al"] ** t["k"]
            elif o == "poly":
                r = a.poly(cut([float(x[0]) for x in t["p"]]))
            elif o == "pcheb":
                r = a.poly(cut([float(x[0]) for x in t["p"]]), kind="Chebyshev")
            elif o == "tcheb":
                r = a.chebyshev(t["k"])
            elif o == "svt":
                svt = GQSVT if rs % 3 == 0 else BlockEncoding.svt
                r = svt(a, cut([float(x[0]) for x in t["p"]]), parity=t["d"])
            reg.append(r)
        return reg[-1]

    def execute(self, c):
        import numpy as np
        import qrisp as q
        n, k, rs = c["n"], c["k"], c["_rs"]

        def main(be):
            ref = q.QuantumVariable(n * k)
            ops = [q.QuantumFloat(n) for _ in range(k)]
            q.h(ref)
            for j in range(n * k):
                q.cx(ref[j], ops[j // n][j % n])
            return ref, ops, be.apply(*ops)
        traced = rs % 2 == 1
        if traced:
            def run():
                ref, ops, anc = main(self.build(c))
                return tuple([ref.reg] + [o.reg for o in ops] + [a.reg for a in anc])
            *res, qc = q.make_jaspr(run)().to_qc()
            regs = [list(r) for r in res if isinstance(r, list)]
            alpha = complex(self.build(c).alpha)
            # measurement based uncomputation: see P17; the untraced circuit is compared instead
            traced = all(i.op.name != "measure" for i in qc.data)
        if not traced:
            be = self.build(c)
            alpha = complex(be.alpha)
            ref, ops, anc = main(be)
            q.merge([v.qs for v in [ref] + ops + anc])
            regs = [list(ref)] + [list(o) for o in ops] + [list(a) for a in anc]
            qc = ref.qs.compile()
        if len(qc.qubits) > 17:
            return
        qc = qc.copy()
        qc.data = [i for i in qc.data if i.op.name not in ("qb_alloc", "qb_dealloc")]
        sv = np.asarray(qc.statevector_array())
        m = len(qc.qubits)
        sv = sv.reshape([2] * m)
        at = {b: i for i, b in enumerate(qc.qubits)}
        refq = regs[0]
        opq = [b for r in regs[1:1 + k] for b in r]
        rest = [b for b in qc.qubits if b not in refq and b not in opq]
        order = [at[b] for b in rest] + [at[b] for b in reversed(opq)] + [at[b] for b in reversed(refq)]
        d = 2 ** (n * k)
        got = sv.transpose(order).reshape(-1, d, d)[0] * np.sqrt(d) * alpha
        want = matrix(c["M"])
        tol = (1e-4 if any(t["t"] in ("poly", "pcheb", "tcheb", "svt") for t in c["toks"]) else 1e-5) * max(1, abs(alpha))
        err = np.abs(got - want).max()
        if not err < tol:
            raise Violation("encoded matrix", f"traced={traced} alpha {alpha}: {np.round(got, 3).tolist()} instead of {np.round(want, 3).tolist()}")


CHECK = P26
