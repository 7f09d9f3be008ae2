"""P11: every adder adds modulo the register size."""
import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs
from vals import match, observe, prepare, xbasis


def ints(bits):
    return [sum(b << i for i, b in enumerate(r)) for r in bits]


class P11(Check):
    pid = "P11"
    method = "spawn"
    rule = ("A case is one history of in-place additions over superposed registers generated by TLC from AdderProg.tla with the table of values "
            "of every branch; non-trivial: at least two branches or a quantum addend.")
    assumptions = ["values per branch exact, probabilities to 5e-3, relative phases to 2e-2; helper qubits in |0>",
                   "carry-out qubits are fresh", "the venting adder is only offered to traced programs and is observed by sampled runs"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=60, out_const="OutFile")
        base = dict(Sampling=True, MinLen=1, MaxLen=3, MaxH=4)
        ex = dict(Sampling=False, MinLen=1, MaxLen=1 if f == 1 else 2, MaxSz=2, MaxH=1, Budget=6, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="AdderProg", consts=ex, workers=2, invariants=["Rev", "InRange"])]
        out += simulate_jobs("AdderProg", dict(base, MaxSz=4, Budget=11, Profile="mixed"), 900 * f, 3, SEED, tag="mixed", **kw)
        out += simulate_jobs("AdderProg", dict(base, MaxSz=7, MaxLen=1, Budget=16, Profile="mixed"), 250 * f, 2, SEED + 30, tag="wide", **kw)
        out += simulate_jobs("AdderProg", dict(base, MaxSz=4, MaxLen=2, Budget=11, Profile="traced"), 48 * f, 1, SEED + 60, tag="traced", **kw)
        out += simulate_jobs("AdderProg", dict(base, MaxSz=4, MaxLen=1, Budget=12, Profile="vent"), 24 * f, 1, SEED + 80, tag="vent", **kw)
        return out

    def trivial(self, c):
        return len(c["br"]) < 2 and all(t["a"] == 0 for t in c["toks"])

    def prepare(self):
        qlib.warm()

    def build(self, c, rs, q):
        vs = [q.QuantumFloat(f["sz"]) for f in c["init"]["fs"]]
        prepare(c["init"], [[v[i] for i in range(f["sz"])] for v, f in zip(vs, c["init"]["fs"])])
        for k, t in enumerate(c["toks"]):
            self.step(t, vs, rs + k, q)
        return vs

    def execute(self, c):
        import qrisp as q
        rs = c["_rs"]
        if c["prof"] == "vent":
            return self.vent(c, rs, q)
        if c["prof"] == "traced":
            def main():
                return tuple(v.reg for v in self.build(c, rs, q))
            *regs, qc = q.make_jaspr(main)().to_qc()
            return match(observe(qc, regs), c["br"], ints, "traced")
        vs = self.build(c, rs, q)
        q.merge([v.qs for v in vs])
        regs = [list(v.reg) for v in vs]
        if rs % 6 == 0:
            qc = vs[0].qs.compile(compile_mcm=True)
            if sum(len(r) for r in regs) <= 10 and rs % 4 == 0:
                def enc(v):
                    return [[x >> i & 1 for i in range(len(r))] for x, r in zip(v, regs)]
                return xbasis(qc, regs, c["br"], enc, "measurement based")
        else:
            qc = vs[0].qs.compile(workspace=rs // 6 % 3)
        match(observe(qc, regs), c["br"], ints, "compiled")

    def vent(self, c, rs, q):
        """Every run has to end in one branch of the table; undone by the Gidney adder and the inverse preparation it
        has to end in the zero state."""
        fs = c["init"]["fs"]
        undo = rs % 2 == 0 and not c["toks"][0]["cout"]

        @q.jaspify
        def main():
            vs = self.build(c, rs, q)
            if undo:
                t = dict(c["toks"][0], m="gidney")
                with q.invert():
                    self.step(t, vs, rs, q)
                with q.invert():
                    prepare(c["init"], [[v[i] for i in range(f["sz"])] for v, f in zip(vs, fs)])
            return tuple(q.measure(v) for v in vs)
        for _ in range(2):
            got = [int(x) for x in main()]
            if undo and any(got):
                raise Violation("venting adder: wrong phases", f"undone program ends in {got}")
            if not undo and got not in [b["v"] for b in c["br"]]:
                if c["toks"][0]["cout"] and fs[0]["sz"] >= 6 and got[:-1] in [b["v"][:-1] for b in c["br"]]:
                    raise Violation("venting adder: wrong carry-out of six or more qubits", f"{got}")
                raise Violation("venting adder: wrong values", f"{got} not among {[b['v'] for b in c['br']][:8]}")

    def step(self, t, vs, r, q):
        b = vs[t["b"] - 1]
        a = vs[t["a"] - 1] if t["a"] else t["c"]
        m, e = t["m"], t["e"]
        kw = {}
        if t["cin"]["q"]:
            kw["c_in"] = vs[t["cin"]["q"] - 1][t["cin"]["j"]]
        z = None
        if t["cout"]:
            z = q.QuantumFloat(1) if m != "venting" else q.QuantumBool()
            if m != "remaud":
                kw["c_out"] = z if m == "venting" else z[0]

        def f():
            if m == "fourier":
                q.fourier_adder(a, b)
            elif m == "jasp_fourier":
                q.jasp_fourier_adder(a, b)
            elif m == "cuccaro":
                q.cuccaro_adder(a, b, **kw)
            elif m == "gidney":
                q.gidney_adder(a, b, **kw)
            elif m == "venting":
                q.gidney_cq_venting_adder(a, b, **kw)
            elif m == "qcla":
                q.qcla(a, b, radix_base=t["rb"], radix_exponent=t["re"], t_depth_reduction=t["td"])
            elif m == "remaud":
                try:
                    q.remaud_adder(a, b, z)
                except (TypeError, IndexError) as ex:
                    if b.size < 4:
                        raise Violation("remaud adder raises below four qubits", str(ex)) from ex
                    raise
            elif m == "inpl_add":
                q.inpl_add(b, a)
            elif m == "increment":
                q.increment(b, a)
        if e["k"] == "inv":
            with q.invert():
                f()
        elif e["k"] == "ctl":
            with q.control(vs[e["q"] - 1][e["j"]], ctrl_state=e["b"]):
                f()
        elif e["k"] == "ictl" and r % 2:
            with q.control(vs[e["q"] - 1][e["j"]], ctrl_state=e["b"]):
                with q.invert():
                    f()
        elif e["k"] == "ictl":
            with q.invert():
                with q.control(vs[e["q"] - 1][e["j"]], ctrl_state=e["b"]):
                    f()
        else:
            f()
        if z is not None:
            vs.append(z)


CHECK = P11
