"""P16: truth tables and quantum dictionaries are loaded exactly."""
import math

import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs
from vals import match, observe, prepare


class P16(Check):
    pid = "P16"
    method = "spawn"
    rule = ("A case is one history of table lookups (dictionary or truth table, plain, controlled, inverted, phase tolerant, uncomputed) generated by "
            "TLC from TableProg.tla with the codes of every branch; non-trivial: at least two branches or two steps.")
    assumptions = ["codes per branch exact, probabilities to 5e-3, relative phases to 2e-2; helper qubits in |0>",
                   "keys without entry leave the value in the zero code"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=60, out_const="OutFile")
        base = dict(Sampling=True, MinLen=1, MaxH=4)
        ex = dict(Sampling=False, MaxKey=1, MinLen=1, MaxLen=1, MaxH=1, Budget=3, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="TableProg", consts=ex, workers=2, invariants=["Rev", "InRange"])]
        out += simulate_jobs("TableProg", dict(base, MaxKey=4, MaxLen=4, Budget=11, Profile="mixed"), 800 * f, 3, SEED, tag="mixed", **kw)
        out += simulate_jobs("TableProg", dict(base, MaxKey=5, MaxLen=1, Budget=10, Profile="mixed"), 150 * f, 1, SEED + 30, tag="wide", **kw)
        return out

    def trivial(self, c):
        return len(c["br"]) < 2 and len(c["toks"]) < 2

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import numpy as np
        import qrisp as q
        from qrisp.misc import custom_qv
        from qrisp.alg_primitives.logic_synthesis import TruthTable
        rs = c["_rs"]

        def make(k, sz):
            if k == "bool":
                return q.QuantumBool()
            if k == "u":
                return q.QuantumFloat(sz, rs % 3 - 1)
            if k == "s":
                return q.QuantumFloat(sz - 1, -(rs % 2), signed=True)
            if k == "custom":
                return custom_qv(["%s%d" % ("xyz"[rs % 3], i) for i in range(2 ** sz)])
            return q.QuantumVariable(sz)
        vs, code = [], []
        for k, f in zip(c["init"]["ks"], c["init"]["fs"]):
            vs.append(make(k, f["sz"]))
            code.append(None)
        prepare(c["init"], [list(v.reg) for v in vs])

        def table(tab, sz):
            return TruthTable(np.array([[(max(e, 0) >> j) & 1 for j in range(sz)] for e in tab]))

        def labels(keys, tab, val):
            """The dictionary of a table."""
            d = {}
            for n, e in enumerate(tab):
                if e < 0:
                    continue
                ls = []
                for v in keys:
                    ls.append(v.decoder(n % 2 ** v.size))
                    n >>= v.size
                d[ls[0] if len(ls) == 1 else tuple(ls)] = val(e)
            return d
        for n, t in enumerate(c["toks"]):
            k, r = t["t"], rs + 5 * n
            if k in ("load", "cload", "onto", "ctl", "tol"):
                keys = [vs[i - 1] for i in t["ks"]]
            if k == "load":
                if t["ret"] == "auto":
                    d = q.QuantumDictionary(labels(keys, t["tab"], lambda e: "e%d" % e))
                    y = d[keys[0] if len(keys) == 1 else tuple(keys)]
                    code.append([y.encoder("e%d" % e) if "e%d" % e in [y.decoder(i) for i in range(2 ** y.size)] else None for e in range(2 ** t["sz"])])
                else:
                    y = make(t["ret"], t["sz"])
                    if r % 3 == 0 and len(keys) == 1:
                        table(t["tab"], t["sz"]).q_synth(keys[0], y, method=t["m"])
                    elif r % 3 == 1:
                        d = q.QuantumDictionary(labels(keys, t["tab"], y.decoder), return_type=y)
                        y = d[keys[0] if len(keys) == 1 else tuple(keys)]
                    else:
                        d = q.QuantumDictionary(labels(keys, t["tab"], y.decoder))
                        d.load(keys[0] if len(keys) == 1 else tuple(keys), y, synth_method=t["m"])
                    code.append(None)
                vs.append(y)
            elif k in ("onto", "ctl", "cload"):
                y = vs[t["o"] - 1] if k != "cload" else make(t["ret"], t["sz"])

                def body():
                    if r % 2 and len(keys) == 1:
                        table(t["tab"], y.size).q_synth(keys[0], y, method=t["m"])
                    else:
                        d = q.QuantumDictionary(labels(keys, t["tab"], y.decoder))
                        d.load(keys[0] if len(keys) == 1 else tuple(keys), y, synth_method=t["m"])

                def inner():
                    if t.get("inv"):
                        with q.invert():
                            body()
                    else:
                        body()
                q.merge([y.qs] + [v.qs for v in keys])
                if k == "onto":
                    inner()
                else:
                    with q.control(vs[t["x"] - 1][t["q"]]):
                        inner()
                if k == "cload":
                    vs.append(y)
                    code.append(None)
            elif k == "tol":
                d = q.QuantumDictionary(labels(keys, t["tab"], lambda e: e))
                y = q.QuantumFloat(t["sz"])
                key = keys[0] if len(keys) == 1 else tuple(keys)
                d.load(key, y, synth_method=t["m"])
                q.p(t["k"] * math.pi / 4, y[t["q"]])
                with q.invert():
                    d.load(key, y, synth_method=t["m"])
                y.delete()
            elif k == "flip":
                q.x(vs[t["i"] - 1][t["q"]])
            elif k == "unc":
                vs[t["i"] - 1].uncompute()
        live = [i for i, f in enumerate(c["fm"]) if f["live"]]
        for v, f in zip(vs, c["fm"]):
            if v.is_deleted() == f["live"]:
                raise Violation("wrong variable deleted", v.name)
        q.merge([vs[i].qs for i in live])
        br = [dict(v=[b["v"][i] if code[i] is None else code[i][b["v"][i]] for i in live], ph=b["ph"]) for b in c["br"]]
        qc = vs[live[0]].qs.compile(workspace=rs // 6 % 3)
        match(observe(qc, [list(vs[i].reg) for i in live]), br, lambda bits: [sum(x << j for j, x in enumerate(b)) for b in bits], "compiled")


CHECK = P16
