"""P08: sessions, allocation and compilation keep every live variable's state."""
import qlib
from checks.p06 import check_state
from common import Check, Violation, SEED, TIER, simulate_jobs
from measure import distribution


def speed(seed):
    tab = {}

    def f(op):
        if op.name not in tab:
            tab[op.name] = (sum(ord(ch) for ch in op.name) * 31 + seed) % 7
        return tab[op.name]

    return f


def marginal(amps, ids):
    out = {}
    for x, a in amps.items():
        k = "".join(str(x >> i & 1) for i in ids)
        out[k] = out.get(k, 0) + abs(a) ** 2
    return {k: p for k, p in out.items() if p > 1e-9}


def same(got, want, what, tol=3e-3):
    if not qlib.close_dist(got, want, tol):
        raise Violation(what, f"{dict(list(got.items())[:12])} instead of {dict(list(want.items())[:12])}")


class P08(Check):
    pid = "P08"
    method = "spawn"
    rule = ("A case is one history of quantum variables (creation, entangling, duplication, growing, shrinking, temporaries, deletion) "
            "generated by TLC from SessProg.tla with its exact joint state; non-trivial: more than one variable and at least one gate.")
    assumptions = ["states compared up to a global phase, tolerance 5e-4; distributions to 3e-3",
                   "verified deletion of a dirty variable is only required to fail if it is dirty with probability at least 0.1"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=120, out_const="OutFile")
        ex = dict(Sampling=False, MinLen=4, MaxLen=4 if f == 1 else 5, MaxQ=6, MaxLive=3, MaxPyth=0, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="SessProg", consts=ex, workers=2, invariants=["Norms", "Fresh", "Owners"])]
        base = dict(Sampling=True, MaxPyth=2)
        out += simulate_jobs("SessProg", dict(base, MinLen=6, MaxLen=24, MaxQ=14, MaxLive=8, Profile="mixed"), 1500 * f, 4, SEED, tag="mixed", **kw)
        out += simulate_jobs("SessProg", dict(base, MinLen=8, MaxLen=20, MaxQ=18, MaxLive=11, Profile="wide"), 700 * f, 3, SEED + 50, tag="wide", **kw)
        out += simulate_jobs("SessProg", dict(base, MinLen=6, MaxLen=20, MaxQ=14, MaxLive=7, Profile="meas"), 600 * f, 2, SEED + 90, tag="meas", **kw)
        return out

    def trivial(self, c):
        return len(c["vs"]) < 2 or not any(t["t"] not in ("new", "del") for t in c["toks"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        rs = c["_rs"]
        from qrisp.circuit import Clbit
        recs = []        # classical bits of the measurements
        vs = []          # [variable, ids]
        qb = {}          # id -> qubit
        used = 0
        resized = {t["v"] for t in c["toks"] if t["t"] in ("grow", "shrink")}  # 1-based; only plain variables change their size
        made = [t for t in c["toks"] if t["t"] in ("new", "dup")]
        for i in range(len(made), 0, -1):
            if made[i - 1]["t"] == "dup" and i in resized:
                resized.add(made[i - 1]["v"])

        def add(v, ids):
            vs.append([v, list(ids)])
            for i, b in zip(ids, v.reg):
                qb[i] = b

        for k, t in enumerate(c["toks"]):
            kind = t["t"]
            r = (rs + k) % 7
            if kind == "new":
                z = t["size"]
                kw = {"qs": vs[t["qs"] - 1][0].qs} if t["qs"] else {}
                if r < 3 or len(vs) + 1 in resized:
                    v = q.QuantumVariable(z, **kw)
                elif r < 5:
                    v = q.QuantumFloat(z, **kw)
                elif z == 1:
                    v = q.QuantumBool(**kw)
                else:
                    v = q.QuantumModulus(2**z, **kw) if r == 5 and z > 1 else q.QuantumVariable(z, name="n%d" % k, **kw)
                if v.size != z:
                    raise Violation("size of a new variable", f"{v.size} instead of {z}")
                add(v, range(used, used + z))
                used += z
            elif kind == "gate":
                qlib.fn_apply(qb, t["op"], style=r % 2)
            elif kind == "wide":
                o = t["op"]
                q.mcx([qb[i] for i in o["c"]], qb[o["q"][0]], ctrl_state=qlib.bits(o["s"]), method="auto" if r < 5 else "gray")
            elif kind in ("and", "undo"):
                o = t["op"]
                q.mcx([qb[i] for i in o["c"]], qb[o["q"][0]], method="gidney" if kind == "and" else "gidney_inv")
            elif kind == "qft":
                arg = vs[t["v"] - 1][0] if t["v"] else [qb[i] for i in t["q"]]
                q.QFT(arg, inv=bool(t["inv"]), exec_swap=bool(t["sw"]))
            elif kind == "meas":
                qs = qb[t["q"]].qs()
                cb = qs.add_clbit() if r % 2 else Clbit("own_%d" % k)
                if r % 2 == 0:
                    qs.add_clbit(cb)
                qs.measure(qb[t["q"]], cb)
                recs.append(cb)
                used += 1
            elif kind == "dup":
                old, ids = vs[t["v"] - 1]
                v = old.duplicate(init=bool(t["init"]))
                if type(v) is not type(old) or v.size != old.size:
                    raise Violation("duplicate changes the type")
                add(v, range(used, used + len(ids)))
                used += len(ids)
            elif kind == "grow":
                v, ids = vs[t["v"] - 1]
                v.extend(1, t["pos"])
                ids.insert(t["pos"], used)
                used += 1
                if v.size != len(ids):
                    raise Violation("size after extend", f"{v.size} instead of {len(ids)}")
                for i, b in zip(ids, v.reg):
                    if i in qb and qb[i] != b:
                        raise Violation("extend moved a qubit")
                    qb[i] = b
            elif kind == "shrink":
                v, ids = vs[t["v"] - 1]
                v.reduce([v[t["pos"]]], verify=bool(t["verify"]))
                ids.pop(t["pos"])
                if v.size != len(ids) or any(qb[i] != b for i, b in zip(ids, v.reg)):
                    raise Violation("register after reduce")
            elif kind == "del":
                vs[t["v"] - 1][0].delete(verify=bool(t["verify"]))
                if not vs[t["v"] - 1][0].is_deleted():
                    raise Violation("deleted variable reported as live")
            else:
                raise AssertionError(kind)
        live = [(v, ids) for (v, ids), w in zip(vs, c["vs"]) if w["live"]]
        amps = qlib.amps(c["fin"])
        if recs:
            q.merge([v.qs for v, _ in vs])
            self.finish_meas(c, live, qb, amps, recs)
        else:
            self.finish(c, live, qb, amps)

    def finish(self, c, live, qb, amps):
        import qrisp as q
        rs = c["_rs"]
        mode = rs // 11 % 8
        ids = [i for _, w in live for i in w]
        qubits = [qb[i] for i in ids]
        opts = self.options(rs)
        perm = {x: sum((x >> i & 1) << k for k, i in enumerate(ids)) for x in amps}
        want = {perm[x]: a for x, a in amps.items()}
        if mode < 3:
            q.merge([v for v, _ in live])
            check_state(live[0][0].qs.compile(**opts), qubits, want, "compiled")
        elif mode == 3:
            q.merge([v for v, _ in live])
            check_state(live[0][0].qs.copy(), qubits, want, "raw") if len(live[0][0].qs.qubits) < 14 else \
                check_state(live[0][0].qs.compile(), qubits, want, "compiled")
        elif mode == 4:
            # measurements announced to the compiler
            q.merge([v for v, _ in live])
            pick = [k for k in range(len(ids)) if (rs >> (k % 20)) % 2] or [0]
            qc = live[0][0].qs.compile(intended_measurements=[qubits[k] for k in pick], **opts)
            got = distribution(qc, [qubits[k] for k in pick])
            same(got, marginal(amps, [ids[k] for k in pick]), "distribution of the intended measurements")
        elif mode == 5:
            # logical ANDs undone by measurement
            q.merge([v for v, _ in live])
            qc = live[0][0].qs.compile(compile_mcm=True, **opts)
            same(distribution(qc, qubits), marginal(amps, ids), "distribution with measurement based uncomputation")
        elif mode == 6:
            # reading one variable at a time, then all of them
            for v, w in live[: 1 + rs % 3]:
                got = v.get_measurement(compilation_kwargs=opts)
                plain = {v.decoder(int(k[::-1], 2)): p for k, p in marginal(amps, w).items()}
                same({key(a): p for a, p in got.items()}, {key(a): p for a, p in plain.items()}, "measured values")
            q.merge([v for v, _ in live])
            check_state(live[0][0].qs.compile(**opts), qubits, want, "compiled after measuring")
        else:
            q.merge([v for v, _ in live])
            for v, w in live:
                dirty = 1 - marginal(amps, w).get("0" * len(w), 0)
                if dirty > 0.1:
                    try:
                        v.delete(verify=True)
                    except Exception as e:  # noqa: BLE001
                        if type(e) not in (Exception, ValueError, RuntimeError):
                            raise
                        check_state(v.qs.compile(**opts), qubits, want, "after refused deletion")
                    else:
                        raise Violation("deletion with verification accepted a variable that is not |0>", f"dirty with {dirty}")
                    return
            check_state(live[0][0].qs.compile(**opts), qubits, want, "compiled")

    def options(self, rs):
        opts = {}
        if rs % 2:
            opts["workspace"] = rs // 3 % 4
        if rs // 2 % 3 == 0:
            opts["gate_speed"] = speed(rs // 5)
        if rs // 7 % 2:
            opts["cancel_qfts"] = False
        return opts

    def finish_meas(self, c, live, qb, amps, recs):
        """the session contains measurements: outcomes and final values have the joint distribution of the records and the qubits"""
        import qrisp as q
        rs = c["_rs"]
        ids = [i for _, w in live for i in w]
        qubits = [qb[i] for i in ids]
        opts = self.options(rs)
        mode = rs // 11 % 6
        if mode == 0:
            v, w = live[rs // 13 % len(live)]
            got = v.get_measurement(compilation_kwargs=opts)
            plain = {v.decoder(int(k[::-1], 2)): p for k, p in marginal(amps, w).items()}
            same({key(a): p for a, p in got.items()}, {key(a): p for a, p in plain.items()}, "measured values")
        q.merge([v for v, _ in live])
        qs = live[0][0].qs
        if mode == 1:
            pick = [k for k in range(len(ids)) if (rs >> (k % 20)) % 2] or [0]
            opts["intended_measurements"] = [qubits[k] for k in pick]
            ids = [ids[k] for k in pick]
            qubits = [qubits[k] for k in pick]
        elif mode in (2, 3, 4):
            opts["compile_mcm"] = True
        qc = qs.copy() if mode == 5 and len(qs.qubits) < 14 else qs.compile(**opts)
        if len(set(recs)) != len(recs) or not set(recs) <= set(qc.clbits):
            raise Violation("classical bits of the session lost")
        got = distribution(qc, qubits, recs)
        same(got, marginal(amps, c["recs"] + ids), "joint distribution of measurement outcomes and final values")


def key(v):
    try:
        return round(float(v), 6)
    except (TypeError, ValueError):
        return str(v)


CHECK = P08
