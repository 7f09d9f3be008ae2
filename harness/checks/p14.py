"""P14: comparisons and boolean logic give exact truth values."""
import gc
import operator
import math

import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs
from vals import match, observe, prepare, read

SC = 256


class Refused(Exception):
    pass


class P14(Check):
    pid = "P14"
    method = "spawn"
    rule = ("A case is one history of comparisons, boolean expressions and conditional operations generated by TLC from CmpProg.tla with the "
            "values of every branch; non-trivial: at least two branches or two steps.")
    assumptions = ["values per branch exact, probabilities to 5e-3, relative phases to 2e-2; helper qubits in |0>",
                   "traced programs: unsigned integers, observed by sampled runs",
                   "nested conditions on the same operand may be refused with an error about locked qubits"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=60, out_const="OutFile")
        base = dict(Sampling=True, MinLen=1, MaxH=4)
        ex = dict(Sampling=False, MinLen=1, MaxLen=1, MaxSz=1 if f == 1 else 2, MaxH=1, Budget=8, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="CmpProg", consts=ex, workers=2, invariants=["Rev", "InRange", "Tri"])]
        out += simulate_jobs("CmpProg", dict(base, MaxSz=3, MaxLen=4, Budget=13, Profile="mixed"), 900 * f, 3, SEED, tag="mixed", **kw)
        out += simulate_jobs("CmpProg", dict(base, MaxSz=5, MaxLen=1, Budget=15, Profile="mixed"), 300 * f, 2, SEED + 30, tag="wide", **kw)
        out += simulate_jobs("CmpProg", dict(base, MaxSz=3, MaxLen=2, Budget=9, Profile="traced"), 40 * f, 1, SEED + 60, tag="traced", **kw)
        out += simulate_jobs("CmpProg", dict(base, MaxSz=3, MaxLen=1, Budget=9, Profile="tsigned"), 10 * f, 1, SEED + 80, tag="tsigned", **kw)
        return out

    def trivial(self, c):
        return len(c["br"]) < 2 and len(c["toks"]) < 2

    def prepare(self):
        qlib.warm()

    def build(self, c, rs, q):
        vs = []
        for f in c["init"]["fs"]:
            vs.append(q.QuantumFloat(f["sz"] - f["sg"], f["e"], signed=f["sg"]) if f["k"] == "num" else q.QuantumBool() if f["k"] == "bit"
                      else q.QuantumVariable(f["sz"]))
        prepare(c["init"], [[v[i] for i in range(f["sz"])] for v, f in zip(vs, c["init"]["fs"])])
        for k, t in enumerate(c["toks"]):
            self.step(t, vs, rs + k, q, c["fm"])
        return vs

    def execute(self, c):
        try:
            self.run(c)
        except Violation as e:
            # a condition given by an expression is uncomputed when nothing refers to it any more:
            # frames kept alive by an uncollected traceback count as references
            if "helper qubits" not in str(e):
                raise
            gc.collect()
            self.run(c)

    def run(self, c):
        import qrisp as q
        rs = c["_rs"]
        fm = c["fm"]
        if c["prof"] in ("traced", "tsigned"):
            @q.jaspify
            def main():
                return tuple(q.measure(v) for v in self.build(c, rs, q))
            want = [b["v"] for b in c["br"]]
            for _ in range(3 if len(want) > 1 else 1):
                got = [round(float(x) * (SC if f["k"] == "num" else 1)) for x, f in zip(main(), fm)]
                if got not in want:
                    special = any(f["sg"] or f["e"] and f["k"] == "num" for f in c["init"]["fs"])
                    raise Violation("traced: wrong values" + (" of signed or scaled numbers" if special else ""), f"{got} not among {want[:8]}")
            return
        try:
            vs = self.build(c, rs, q)
        except Refused:
            return
        q.merge([v.qs for v in vs])
        for v, f in zip(vs, fm):
            if v.size != f["sz"]:
                raise Violation("operand changed its size", f"{v.size} instead of {f}")

        def reader(bits):
            return [read(b, f["e"], f["sg"]) for b, f in zip(bits, fm)]
        qc = vs[0].qs.compile(workspace=rs // 6 % 3)
        match(observe(qc, [list(v.reg) for v in vs]), c["br"], reader, "compiled")

    def rel(self, r, vs, left):
        x = vs[r["a"] - 1]
        if r["b"]:
            return getattr(operator, r["o"])(x, vs[r["b"] - 1])
        c = r["c"] / SC
        c = int(c) if c == int(c) else c
        if left:
            swap = dict(lt="gt", gt="lt", le="ge", ge="le", eq="eq", ne="ne")
            return getattr(operator, swap[r["o"]])(c, x)
        return getattr(operator, r["o"])(x, c)

    def bool(self, r, vs):
        x = vs[r["a"] - 1]
        if r["o"] == "not":
            return ~x
        return getattr(operator, r["o"] + "_" if r["o"] != "xor" else "xor")(x, vs[r["b"] - 1])

    def step(self, t, vs, r, q, fm):
        k = t["t"]
        if k == "cmp":
            vs.append(self.rel(t["r"], vs, t["left"]))
        elif k in ("bool", "vec"):
            vs.append(self.bool(t["r"], vs))
        elif k == "flip":
            vs[t["a"] - 1].flip()
        elif k == "veq":
            y = t["r"]
            a = vs[y["a"] - 1]
            b = vs[y["b"] - 1] if y["b"] else "".join(str(y["c"] >> i & 1) for i in range(a.size))
            vs.append(a == b if y["o"] == "eq" else a != b)
        elif k == "cond":
            b = vs[t["i"] - 1][t["q"]]

            def body():
                if t["g"] == "x":
                    q.x(b)
                else:
                    q.p(t["k"] * math.pi / 4, b)

            def enter(cs):
                if not cs:
                    return body()
                if cs[0]["k"] == "cmp" and r % 3:
                    # the comparison is part of the with statement
                    y = cs[0]["r"]
                    a, o = vs[y["a"] - 1], y["o"]
                    c = vs[y["b"] - 1] if y["b"] else y["c"] / SC
                    if o == "lt":
                        with a < c:
                            enter(cs[1:])
                    elif o == "gt":
                        with a > c:
                            enter(cs[1:])
                    elif o == "le":
                        with a <= c:
                            enter(cs[1:])
                    elif o == "ge":
                        with a >= c:
                            enter(cs[1:])
                    elif o == "eq":
                        with a == c:
                            enter(cs[1:])
                    else:
                        with a != c:
                            enter(cs[1:])
                elif cs[0]["k"] == "cmp":
                    with self.rel(cs[0]["r"], vs, False):
                        enter(cs[1:])
                else:
                    with self.bool(cs[0]["r"], vs):
                        enter(cs[1:])
            ops = [{y["r"]["a"], y["r"]["b"]} - {0} for y in t["cs"]]
            try:
                enter(t["cs"])
            except RuntimeError as e:
                # nested conditions on the same variable may be refused
                if len(ops) < 2 or not ops[0] & ops[1] or "perm_locked" not in str(e):
                    raise
                raise Refused()


CHECK = P14
