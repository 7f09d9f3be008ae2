"""P19: resource estimates."""
import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs


class P19(Check):
    pid = "P19"
    method = "spawn"
    rule = ("A case is a structured program generated by TLC from JaspProg.tla with the operations executed when every measurement returns 0 and when every measurement returns 1 "
            "(names, qubits, depth); the profilers must report exactly these; non-trivial: a structured statement occurs.")
    assumptions = ["basic gates, singly controlled x, y and z; other controlled gates are compared with the extracted circuit"]
    limit = 240

    def specs(self):
        f = 1 if TIER != "thorough" else 6
        ex = dict(Sampling=False, MaxN=1, MinLen=1, MaxLen=1, MaxDepth=1, MaxFlat=20, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="JaspProg", consts=ex, workers=2, invariants=["TotalOne"])]
        kw = dict(depth=60, out_const="OutFile")
        out += simulate_jobs("JaspProg", dict(Sampling=True, MaxFlat=80, Profile="count", MaxN=3, MinLen=2, MaxLen=6, MaxDepth=3), 180 * f, 2, SEED, tag="count", **kw)
        out += simulate_jobs("JaspProg", dict(Sampling=True, MaxFlat=80, Profile="pure", MaxN=3, MinLen=1, MaxLen=5, MaxDepth=2), 80 * f, 1, SEED + 1, tag="pure", **kw)
        return out

    def trivial(self, c):
        return all(s["t"] == "g" for s in c["prog"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        from qrisp.jasp import count_ops, depth, num_qubits
        from jaspprog import Prog

        def run(a, b):
            qv, cq, cl = Prog(c).start(a, b)
            return cl[0], cl[1]
        js = q.make_jaspr(run)(1, 1)
        res = js.to_qc(*c["init"])
        qc = res[-1] if isinstance(res, tuple) else res
        live = peak = made = freed = 0
        for i in qc.data:
            if i.op.name == "qb_alloc":
                live, made = live + 1, made + 1
                peak = max(peak, live)
            elif i.op.name == "qb_dealloc":
                live, freed = live - 1, freed + 1
        qc = qc.transpile()
        want = {k: v for k, v in qc.count_ops().items() if k not in ("qb_alloc", "qb_dealloc")}
        simple = c["tag"] == "count"
        both = TIER == "thorough"
        for f in (0, 1):
            if both or (c["_rs"] + f) % 2:
                got = dict(count_ops(meas_behavior=str(f))(run)(*c["init"]))
                exp = want
                if simple:
                    exp = {}
                    for o in c["paths"][f]["ops"]:
                        g = "c" * len(o["c"]) + o["g"]
                        exp[g] = exp.get(g, 0) + 1
                if got != exp:
                    raise Violation("operation counts", f"{got} instead of {exp}")
            if both or not (c["_rs"] + f) % 2:
                d = int(depth(meas_behavior=str(f))(run)(*c["init"]))
                e = c["paths"][f]["depth"] if simple else qc.depth()
                if d != e:
                    raise Violation("depth", f"{d} instead of {e}")
        k = num_qubits(meas_behavior="0")(run)(*c["init"])
        e = dict(total_allocated=made, total_deallocated=freed, peak_allocations=peak, finally_allocated=made - freed)
        if {x: abs(int(y)) for x, y in k.items()} != e:
            raise Violation("qubits", f"{k} instead of {e}")



CHECK = P19
