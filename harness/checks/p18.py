"""P18: real-time classical control."""
import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs


class P18(Check):
    pid = "P18"
    method = "spawn"
    rule = ("A case is a structured program with measurements, resets, classical computation, branches, loops and bounded while loops, generated by TLC from JaspProg.tla with the "
            "set of all classical results it can return; recorded runs must be in that set, and distributions over deterministic results must be exact; non-trivial: the program measures.")
    assumptions = ["eight recorded runs per program"]
    limit = 240

    def specs(self):
        f = 1 if TIER != "thorough" else 6
        ex = dict(Sampling=False, MaxN=1, MinLen=1, MaxLen=1, MaxDepth=1, MaxFlat=20, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="JaspProg", consts=ex, workers=2, invariants=["TotalOne"])]
        b = dict(Sampling=True, MaxFlat=60, Profile="feed")
        kw = dict(depth=60, out_const="OutFile")
        out += simulate_jobs("JaspProg", dict(b, MaxN=3, MinLen=2, MaxLen=6, MaxDepth=3), 300 * f, 2, SEED, tag="deep", **kw)
        out += simulate_jobs("JaspProg", dict(b, MaxN=3, MinLen=3, MaxLen=10, MaxDepth=2), 300 * f, 2, SEED + 1, tag="long", **kw)
        return out

    def trivial(self, c):
        from jaspprog import measures
        return not measures(c["prog"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        from jaspprog import Prog
        n = c["n"]
        outs = {tuple(o) for o in c["outs"]}

        def run(a, b):
            qv, cq, cl = Prog(c).start(a, b)
            return cl[0], cl[1], q.measure(qv), q.measure(cq)
        js = q.make_jaspr(run)(1, 1)
        low = {}
        for cl, (a, b, k, m) in c["probs"]:
            low[tuple(cl)] = low.get(tuple(cl), 0) + (a + b * 2 ** .5) / 2 ** k / 25 ** m
        # 80 runs miss a result of probability 0.2 with probability 2e-8
        need = {x for x, p in low.items() if p > 0.2}
        for i in range(80):
            if i >= 8 and not need:
                return
            u, v, x, y = js(*c["init"])
            r = (int(u), int(v), int(x) + (int(y) << n))
            need.discard(r[:2])
            if r not in outs:
                raise Violation("impossible result", f"classical {r[:2]} register {r[2]}: not among {sorted(outs)[:6]}...")
            if len(outs) == 1:
                return
        if need:
            raise Violation("missing result", f"classical {sorted(need)} did not occur in 80 runs")


CHECK = P18
