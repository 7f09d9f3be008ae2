"""P09: every multi-controlled gate method implements the same gate."""
import qlib
from checks.p06 import check_state
from checks.p08 import marginal, same
from common import Check, SEED, TIER, simulate_jobs
from measure import distribution


def xbasis(amps, n):
    for i in range(n):
        out = {}
        for k, a in amps.items():
            b = k >> i & 1
            out[k & ~(1 << i)] = out.get(k & ~(1 << i), 0) + a / 2 ** 0.5
            out[k | 1 << i] = out.get(k | 1 << i, 0) + (-a if b else a) / 2 ** 0.5
        amps = out
    return amps


class P09(Check):
    pid = "P09"
    method = "spawn"
    rule = ("A case is one program of multi-controlled gates with named synthesis methods, control states and contexts generated by TLC "
            "from CtrlProg.tla with its exact final state; non-trivial: at least one gate with two or more controls.")
    assumptions = ["states compared up to a global phase, tolerance 5e-4; distributions to 3e-3",
                   "phase tolerant gates are used in pairs around gates that keep the values of their qubits; logical ANDs have a fresh target",
                   "traced programs use the methods offered for traced qubit arrays (balauca, khattar)"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=60, out_const="OutFile")
        ex = dict(Sampling=False, MinN=2, MaxN=2 if f == 1 else 3, MinLen=2, MaxLen=3, MaxPyth=0, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="CtrlProg", consts=ex, workers=2, invariants=["Norms", "Fresh", "Laws"])]
        base = dict(Sampling=True, MaxPyth=2)
        out += simulate_jobs("CtrlProg", dict(base, MinN=2, MaxN=5, MinLen=3, MaxLen=6, Profile="mixed"), 1200 * f, 3, SEED, tag="small", **kw)
        out += simulate_jobs("CtrlProg", dict(base, MinN=5, MaxN=9, MinLen=3, MaxLen=4, Profile="mixed"), 900 * f, 3, SEED + 50, tag="wide", **kw)
        out += simulate_jobs("CtrlProg", dict(base, MinN=2, MaxN=7, MinLen=3, MaxLen=4, Profile="traced"), 200 * f, 1, SEED + 90, tag="traced", **kw)
        return out

    def trivial(self, c):
        return not any(t["t"] not in ("prep", "gate") and len(t["c"]) > 1 for t in c["toks"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        n, rs = c["n"], c["_rs"]
        if c["prof"] == "traced":
            return self.traced(c)
        if rs % 3 == 0:
            vs = [q.QuantumBool() for _ in range(n)]
        elif rs % 3 == 1:
            vs = [q.QuantumVariable(n)]
        else:
            vs = [q.QuantumVariable(1), q.QuantumVariable(n - 1)]
        qb = [b for v in vs for b in v.reg]
        for k, t in enumerate(c["toks"]):
            self.apply(c, t, qb, rs // 3 + k)
        q.merge([b.qs() for b in qb])
        qs = qb[0].qs()
        amps = qlib.amps(c["fin"])
        mode = rs // 7 % 4
        if mode == 0 and len(qs.qubits) <= 14:
            check_state(qs.copy(), qb, amps, "uncompiled")
        elif mode == 1:
            if rs // 11 % 3:       # look at the final state in the X basis
                for b in qb:
                    q.h(b)
                amps = xbasis(amps, n)
            qc = qs.compile(compile_mcm=True, workspace=rs // 5 % 3)
            same(distribution(qc, qb), marginal(amps, range(n)), "distribution with measurement based methods")
        else:
            check_state(qs.compile(workspace=rs // 5 % 4), qb, amps, "compiled")

    def apply(self, c, t, qb, r):
        import qrisp as q
        kind = t["t"]
        if kind == "prep":
            for o in t["ops"]:
                qlib.fn_apply(qb, o)
            return
        if kind == "gate":
            qlib.fn_apply(qb, t["op"], style=r % 2)
            return
        ctl = [qb[i] for i in t["c"]]
        s = qlib.bits(t["s"])
        if r % 3 == 0:
            s = sum(b << i for i, b in enumerate(t["s"]))
        elif r % 3 == 1 and all(t["s"]):
            s = -1
        if kind == "pair":
            a, b = ("gray_pt", "gray_pt_inv")[:: -1 if t["inv"] else 1]
            q.mcx(ctl, qb[t["q"]], method=a, ctrl_state=s)
            for o in t["mid"]:
                qlib.fn_apply(qb, o)
            q.mcx(ctl, qb[t["q"]], method=b, ctrl_state=s)
            return
        if kind == "and":
            anc = q.QuantumBool()
            qb = [qb[i] for i in range(c["n"])] + [anc[0]]
            q.mcx(ctl, anc, method="gidney", ctrl_state=s)
            for o in t["mid"]:
                qlib.fn_apply(qb, o)
            if r % 2:
                with q.invert():
                    q.mcx(ctl, anc, method="gidney", ctrl_state=s)
            else:
                q.mcx(ctl, anc, method="gidney_inv", ctrl_state=s)
            anc.delete()
            return
        e = t["e"]

        def f():
            if kind == "mcx":
                q.mcx(ctl, qb[t["q"]], method=t["method"], ctrl_state=s, num_ancilla=t["anc"])
            elif kind == "mcz":
                q.mcz(ctl, method=t["method"], ctrl_state=s, num_ancilla=t["anc"])
            else:
                q.mcp(qlib.ang(t["a"]), ctl, method=t["method"], ctrl_state=s)
        if e["k"] == "inv":
            with q.invert():
                f()
        elif e["k"] == "ctl":
            with q.control(qb[e["q"]], ctrl_state=e["b"]):
                f()
        else:
            f()

    def traced(self, c):
        import qrisp as q
        from qrisp.jasp import make_jaspr
        n, rs = c["n"], c["_rs"]

        def prog():
            v = q.QuantumVariable(n)
            for k, t in enumerate(c["toks"]):
                if t["t"] == "prep":
                    for o in t["ops"]:
                        qlib.fn_apply(v, o)
                    continue
                if t["t"] == "gate":
                    qlib.fn_apply(v, t["op"])
                    continue
                if t["t"] in ("pair", "and") or (t["t"] == "mcx" and t["method"] in ("auto", "gray", "jones", "amy", "yong") and (rs + k) % 2):
                    # methods offered for lists of traced qubits
                    t = dict(t, method="gray" if t.get("method") != "auto" else "auto")
                    self.apply(c, t, v, rs // 3 + k)
                    continue
                ctl = v[t["c"][0]:t["c"][0] + 1]
                for i in t["c"][1:]:
                    ctl = ctl + v[i:i + 1]
                s = sum(b << i for i, b in enumerate(t["s"]))
                if (rs + k) % 3 == 0:
                    s = qlib.bits(t["s"])
                elif (rs + k) % 3 == 1 and all(t["s"]):
                    s = -1
                me = t["method"] if t["method"] in ("balauca", "khattar") else ("balauca", "khattar")[rs // 3 % 2]
                e = t["e"]

                def f():
                    if t["t"] == "mcx":
                        q.mcx(ctl, v[t["q"]], method=me, ctrl_state=s)
                    elif t["t"] == "mcz":
                        q.mcz(ctl, method=me, ctrl_state=s)
                    else:
                        q.mcp(qlib.ang(t["a"]), ctl, method=me, ctrl_state=s)
                if e["k"] == "inv":
                    with q.invert():
                        f()
                elif e["k"] == "ctl":
                    with q.control(v[e["q"]], ctrl_state=e["b"]):
                        f()
                else:
                    f()
            return v
        qc = make_jaspr(prog)().to_qc()
        v, qc = qc[0], qc[-1]
        amps = qlib.amps(c["fin"])
        if qc.clbits:      # methods that measure their helper qubits
            same(distribution(qc, list(v)), marginal(amps, range(n)), "distribution of the traced program")
        else:
            check_state(qc, list(v), amps, "traced")


CHECK = P09
