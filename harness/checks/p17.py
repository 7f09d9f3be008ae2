"""P17: traced programs."""
import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs


class P17(Check):
    pid = "P17"
    method = "spawn"
    rule = ("A case is a structured program without measurements (gates, dynamic loops, control, inversion, conjugation, subroutine, classical branches) generated by TLC from "
            "JaspProg.tla with its exact final state; non-trivial: a structured statement occurs.")
    assumptions = ["states compared up to a global phase", "the register is read with the simulator (P02)"]
    limit = 240

    def specs(self):
        f = 1 if TIER != "thorough" else 6
        ex = dict(Sampling=False, MaxN=1, MinLen=1, MaxLen=1, MaxDepth=1, MaxFlat=20, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="JaspProg", consts=ex, workers=2, invariants=["TotalOne"])]
        b = dict(Sampling=True, MaxFlat=80, Profile="pure")
        kw = dict(depth=60, out_const="OutFile")
        out += simulate_jobs("JaspProg", dict(b, MaxN=3, MinLen=2, MaxLen=5, MaxDepth=3), 300 * f, 2, SEED, tag="deep", **kw)
        out += simulate_jobs("JaspProg", dict(b, MaxN=4, MinLen=3, MaxLen=8, MaxDepth=2), 200 * f, 2, SEED + 1, tag="long", **kw)
        return out

    def trivial(self, c):
        return all(s["t"] == "g" for s in c["prog"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        from jaspprog import Prog
        from checks.p06 import check_state
        from checks.p08 import same
        rs = c["_rs"]
        want = qlib.amps(c["state"][0])
        n = c["n"]

        def main(a, b):
            qv, cq, cl = Prog(c).start(a, b)
            return qv, cq
        js = q.make_jaspr(main)(1, 1)
        *res, qc = js.to_qc(*c["init"])
        v, w = [r for r in res if isinstance(r, list)]
        check_state(qc, list(v) + list(w), want, "extracted circuit")
        if rs % 3 == 0:
            def run(a, b):
                qv, cq, cl = Prog(c).start(a, b)
                return q.measure(qv), q.measure(cq)
            x, y = q.jaspify(run)(*c["init"])
            if abs(want.get(int(x) + (int(y) << n), 0)) < 1e-9:
                raise Violation("impossible result of a run", f"({x}, {y})")
        if rs % 3 == 1:
            def smp(a, b):
                qv, cq, cl = Prog(c).start(a, b)
                return qv, cq
            got = {}
            for (x, y), p in q.terminal_sampling(smp)(*c["init"]).items():
                k = tuple(int(z, 2) if isinstance(z, str) else int(z) for z in (x, y))
                got[k] = got.get(k, 0) + p
            exp = {}
            for x, z in want.items():
                k = (x % 2 ** n, x >> n)
                exp[k] = exp.get(k, 0) + abs(z) ** 2
            for k in set(got) | set(exp):
                if abs(got.get(k, 0) - exp.get(k, 0)) > 2e-3:
                    raise Violation("terminal sampling distribution", f"{k}: {got.get(k, 0)} instead of {exp.get(k, 0)}")


CHECK = P17
