"""P07: uncomputation is exact or refused."""
import qlib
from checks.p06 import check_state
from common import Check, Violation, SEED, TIER, simulate_jobs


class Refused(Exception):
    pass


class P07(Check):
    pid = "P07"
    rule = ("A case is one program computing, using and uncomputing temporaries, generated by TLC from UncompProg.tla with the exact "
            "state before and after every uncomputation; non-trivial: a temporary is a target of some gate.")
    assumptions = ["temporaries are targets of exact permutations (or of gates that forbid uncomputation)",
                   "states compared up to a global phase, tolerance 5e-4",
                   "a refusal is an Exception, ValueError or RuntimeError raised by the call"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=80, out_const="OutFile")
        ex = dict(Sampling=False, MinN=2, MaxN=2, MaxTemps=2 if f > 1 else 1, MinLen=3, MaxLen=4 if f > 1 else 3, MaxPyth=0,
                  Profile="tiny", OutFile="/dev/null")
        out = [dict(module="UncompProg", consts=ex, workers=2, invariants=["Norms", "Guaranteed", "Confluent"])]
        base = dict(Sampling=True, MaxPyth=2, MinN=2, MaxN=4, MaxTemps=3)
        out += simulate_jobs("UncompProg", dict(base, MinLen=4, MaxLen=12, Profile="mixed"), 1800 * f, 4, SEED, tag="mixed", **kw)
        out += simulate_jobs("UncompProg", dict(base, MinLen=4, MaxLen=12, Profile="clean"), 1400 * f, 3, SEED + 50, tag="clean", **kw)
        late = dict(base, MinN=2, MaxN=3, MaxTemps=2)
        out += simulate_jobs("UncompProg", dict(late, MinLen=5, MaxLen=10, Profile="late"), 700 * f, 2, SEED + 80, tag="late", **kw)
        return out

    def trivial(self, c):
        return not any(t["t"] in ("gate", "block") for t in c["toks"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        n, rs = c["n"], c["_rs"]
        if rs % 2:
            ins = [q.QuantumVariable(n)]
        else:
            ins = [q.QuantumBool() for _ in range(n)]
        qb = [b for v in ins for b in v.reg]
        for o in c["toks"][0]["ops"]:
            qlib.fn_apply(qb, o)
        body = c["toks"][1:]
        events = [t for t in body if t["t"] == "uncompute"]
        self.want = c["fin"]
        if c["ctl"] >= 0:
            with q.control(qb[c["ctl"]]):
                self.program(c, qb, body, events)
        else:
            self.program(c, qb, body, events)
        q.merge(ins + [v for v in self.temps.values() if not v.is_deleted()])
        live = list(qb)
        want = qlib.amps(self.want)
        # temporaries that survive a refusal
        pos = n
        for i, z in enumerate(c["sizes"]):
            for j in range(z):
                if i in self.temps and not self.temps[i].is_deleted():
                    live.append(self.temps[i][j])
                else:
                    if any(x >> pos & 1 for x in want):
                        raise Violation("temporary deleted although the uncomputation was refused")
                    live.append(None)
                pos += 1
        want2 = {}
        keep = [i for i, b in enumerate(live) if b is not None]
        for x, a in want.items():
            want2[sum((x >> i & 1) << k for k, i in enumerate(keep))] = a
        check_state(qb[0].qs().copy(), [live[i] for i in keep], want2, self.what)

    def program(self, c, qb, body, events):
        import qrisp as q
        self.temps = {}
        self.what = "uncomputed"
        auto = (c["_rs"] // 2 % 3 == 0 and len(events) == 1 and len(events[0]["vars"]) == len(c["sizes"])
                and body[-1]["t"] == "uncompute" and not events[0]["rec"])
        if auto:
            def compute_and_use(qubits):
                self.steps(c, qubits, body[:-1], create=True)

            f = q.auto_uncompute(compute_and_use)
            try:
                self.event(events[0], lambda: f(list(qb)))
            except Refused:
                pass
        else:
            try:
                self.steps(c, qb, body)
            except Refused:
                pass

    def steps(self, c, qb, body, create=False):
        import qrisp as q
        rs = c["_rs"]
        names = {}
        p = c["n"]
        for i, z in enumerate(c["sizes"]):
            for j in range(z):
                names[p] = (i, j)
                p += 1

        def var(i):
            if i not in self.temps:
                z = c["sizes"][i]
                self.temps[i] = (q.QuantumBool() if z == 1 and (rs + i) % 2 else
                                 q.QuantumFloat(z) if (rs + i) % 3 == 0 else q.QuantumVariable(z))
                if c["ctl"] >= 0:
                    q.merge([qb[0].qs(), self.temps[i]])  # the surrounding environment controls what interacts with it
            return self.temps[i]

        class Reg:
            def __getitem__(self, k):
                return qb[k] if k < c["n"] else var(names[k][0])[names[k][1]]

        reg = Reg()
        if create:
            for i in range(len(c["sizes"])):
                var(i)
            q.merge([qb[0].qs()] + list(self.temps.values()))
        for k, t in enumerate(body):
            if t["t"] == "gate":
                qlib.fn_apply(reg, t["op"], style=(rs + k) % 2)
            elif t["t"] == "block":
                block(reg, t["ops"], (rs + k) % 2)
            else:
                vs = [var(i - 1) for i in t["vars"]]

                q.merge([qb[0].qs()] + vs)

                def call():
                    for v in vs[:-1]:
                        v.uncompute(do_it=False)
                    vs[-1].uncompute(recompute=bool(t["rec"])) if t["rec"] else vs[-1].uncompute()

                self.event(t, call)

    def event(self, t, call):
        try:
            call()
        except Refused:
            raise
        except Exception as e:  # noqa: BLE001
            if type(e) not in (Exception, ValueError, RuntimeError):
                raise
            if t["must"]:
                raise Violation("uncomputation refused", f"{e}")
            self.want = t["pre"]
            self.what = "refused"
            raise_ = Refused()
        else:
            if not t["ok"]:
                raise Violation("impossible uncomputation accepted")
            return
        if t is not None:
            raise raise_


def block(reg, ops, style):
    """The operations as one gate."""
    import qrisp as q
    used = sorted({i for o in ops for i in o["q"] + o["c"]})
    qubits = [reg[i] for i in used]
    ren = {u: k for k, u in enumerate(used)}
    ops = [dict(o, q=[ren[i] for i in o["q"]], c=[ren[i] for i in o["c"]]) for o in ops]
    if style:
        sub = q.QuantumCircuit(len(used))
        for o in ops:
            qlib.circ_apply(sub, o)
        q.multi_session_merge([b.qs() for b in qubits])
        qubits[0].qs().append(sub.to_gate("block"), qubits)
    else:
        def wrapped(*qs):
            for o in ops:
                qlib.fn_apply(list(qs), o)

        q.gate_wrap(wrapped)(*qubits)


CHECK = P07
