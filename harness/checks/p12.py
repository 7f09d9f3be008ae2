"""P12: modular arithmetic is arithmetic modulo N."""
import operator

import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs
from vals import match, observe, prepare

ADDERS = ["fourier_adder", "cuccaro_adder", "gidney_adder"]


class P12(Check):
    pid = "P12"
    method = "spawn"
    rule = ("A case is one history of operations modulo N generated by TLC from ModProg.tla with the values of every branch; "
            "non-trivial: at least two branches or two operations.")
    assumptions = ["values per branch exact, probabilities to 5e-3, relative phases to 2e-2; helper qubits in |0>",
                   "the Montgomery shift of a product is the implementation's choice; the decoded value counts",
                   "multiplication only for odd moduli, in place only by units", "traced programs are observed by sampled runs"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=60, out_const="OutFile")
        base = dict(Sampling=True, MinLen=1, MaxH=3)
        ex = dict(Sampling=False, Moduli={3, 4, 5} if f > 1 else {3, 4}, MinLen=1, MaxLen=1 if f == 1 else 2, MaxH=1, Budget=6, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="ModProg", consts=ex, workers=2, invariants=["Rev", "Reduced"])]
        out += simulate_jobs("ModProg", dict(base, Moduli={3, 5, 6, 7}, MaxLen=3, Budget=12, Profile="mixed"), 420 * f, 3, SEED, tag="small", **kw)
        out += simulate_jobs("ModProg", dict(base, Moduli={2, 4, 8, 9, 11, 12, 13, 15}, MaxLen=2, Budget=13, Profile="mixed"), 180 * f, 2, SEED + 30, tag="wide", **kw)
        out += simulate_jobs("ModProg", dict(base, Moduli={3, 5, 6, 7}, MaxLen=2, Budget=9, Profile="traced"), 30 * f, 1, SEED + 60, tag="traced", **kw)
        return out

    def trivial(self, c):
        return len(c["br"]) < 2 and len(c["toks"]) < 2

    def prepare(self):
        qlib.warm()

    def build(self, c, rs, q):
        n = c["init"]["n"]
        vs = []
        for k, f in zip(c["init"]["ks"], c["init"]["fs"]):
            if k == "mod":
                vs.append(q.QuantumModulus(n, inpl_adder=getattr(q, ADDERS[rs % 3])) if rs % 4 and c["prof"] != "traced" else q.QuantumModulus(n))
            elif k == "float":
                vs.append(q.QuantumFloat(f["sz"]))
            else:
                vs.append(q.QuantumBool())
        prepare(c["init"], [[v[i] for i in range(f["sz"])] for v, f in zip(vs, c["init"]["fs"])])
        for k, t in enumerate(c["toks"]):
            self.step(t, vs, rs + k, q)
        return vs

    def execute(self, c):
        import qrisp as q
        rs = c["_rs"]
        n = c["init"]["n"]
        ms = []

        def reader(bits):
            out = []
            for k, m, b in zip(c["ks"], ms, bits):
                x = sum(y << i for i, y in enumerate(b))
                if k["k"] == "mod":
                    x = x * pow(2, -m, n) % n if n % 2 and x < n else x
                out.append(x)
            return out
        if c["prof"] == "traced":
            @q.jaspify
            def main():
                return tuple(q.measure(v) for v in self.build(c, rs, q))
            want = [b["v"] for b in c["br"]]
            for _ in range(3 if len(want) > 1 else 1):
                got = [int(x) for x in main()]
                if got not in want:
                    raise Violation("traced: wrong values", f"{got} not among {want[:8]}")
            return
        vs = self.build(c, rs, q)
        q.merge([v.qs for v in vs])
        ms.extend(int(getattr(v, "m", 0)) for v in vs)
        regs = [list(v.reg) for v in vs]
        for v, k in zip(vs, c["ks"]):
            if k["k"] == "mod" and k["m"] != 99 and v.m != k["m"]:
                raise Violation("Montgomery shift", f"{v.m} instead of {k['m']}")
            if k["k"] == "mod" and n % 2 and rs % 5 == 0:
                for x in range(n):
                    if v.decoder(v.encoder(x)) != x and v.m >= 0:
                        raise Violation("encoder and decoder", f"{x} -> {v.encoder(x)} -> {v.decoder(v.encoder(x))} with shift {v.m}")
        qc = vs[0].qs.compile(workspace=rs // 6 % 3)
        try:
            match(observe(qc, regs), c["br"], reader, "compiled")
        except Violation as ex:
            if any(t["t"] == "order" for t in c["toks"]) and ex.sig == "compiled: wrong values":
                raise Violation("order of shifted numbers", ex.detail) from ex
            raise

    def step(self, t, vs, r, q):
        a = t["a"] - 1
        e = t["e"]

        def f():
            k, c = t["t"], t["c"]
            if k == "iaddc":
                vs[a] = (operator.iadd if t["o"] == 1 else operator.isub)(vs[a], c)
            elif k == "iaddq":
                vs[a] = (operator.iadd if t["o"] == 1 else operator.isub)(vs[a], vs[t["b"] - 1])
            elif k == "imul":
                vs[a] = operator.imul(vs[a], c)
            elif k == "addc":
                x = vs[a]
                vs.append({"add": lambda: x + c, "radd": lambda: c + x, "sub": lambda: x - c, "rsub": lambda: c - x}[t["o"]]())
            elif k == "addq":
                vs.append((operator.add if t["o"] == "add" else operator.sub)(vs[a], vs[t["b"] - 1]))
            elif k == "mulc":
                vs.append(vs[a] * c if t["o"] == "mul" else c * vs[a])
            elif k == "mulq":
                vs.append(vs[a] * vs[t["b"] - 1])
            elif k == "shift":
                vs[a].m += c
            elif k in ("cmp", "order"):
                vs.append(getattr(operator, t["o"])(vs[a], vs[t["b"] - 1] if t["b"] else c))
        if e["k"] == "inv":
            with q.invert():
                f()
        elif e["k"] == "ctl":
            with q.control(vs[e["q"] - 1][0], ctrl_state=e["b"]):
                f()
        else:
            f()


CHECK = P12
