"""P06: quantum environments mean what they say, in any nesting."""
import numpy as np

import qlib
from common import Check, Violation, SEED, TIER, simulate_jobs


class P06(Check):
    pid = "P06"
    rule = ("A case is one program of nested environments generated by TLC from EnvProg.tla with its exact final state; "
            "non-trivial: at least one environment with content.")
    assumptions = ["states compared up to a global phase, tolerance 5e-4"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=120, out_const="OutFile")
        ex = dict(Sampling=False, MinN=2, MaxN=2, MinLen=6, MaxLen=6 if f == 1 else 7, MaxDepth=2, MaxFlat=40, MaxPyth=0,
                  Profile="tiny", OutFile="/dev/null")
        out = [dict(module="EnvProg", consts=ex, workers=2, invariants=["Norms", "Clean", "Laws"])]
        base = dict(Sampling=True, MaxPyth=3, Profile="mixed")
        out += simulate_jobs("EnvProg", dict(base, MinN=2, MaxN=5, MinLen=12, MaxLen=26, MaxDepth=3, MaxFlat=70), 2100 * f, 5, SEED,
                             tag="mixed", **kw)
        out += simulate_jobs("EnvProg", dict(base, MinN=4, MaxN=6, MinLen=18, MaxLen=34, MaxDepth=5, MaxFlat=120), 500 * f, 2,
                             SEED + 50, tag="deep", **kw)
        return out

    def trivial(self, c):
        return not any(t["t"] == "open" for t in c["toks"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        n, rs = c["n"], c["_rs"]
        style = rs % 3
        if style == 0:
            qvs = [q.QuantumVariable(n)]
        elif style == 1:
            k = 1 + rs // 3 % (n - 1)
            qvs = [q.QuantumVariable(k), q.QuantumVariable(n - k)]
        else:
            qvs = [q.QuantumBool() for _ in range(n)]
        qb = [b for v in qvs for b in v.reg]
        owner = {b: v for v in qvs for b in v.reg}
        if any(t["t"] == "open" and t["kind"] == "iter" for t in c["toks"]):
            q.merge(qvs)
        Replay(c, qb, owner).run()
        q.merge(qvs)
        qs = qb[0].qs()
        mode = rs // 7 % 2
        if mode == 0 and len(qs.qubits) > 15:
            mode = 1
        if mode == 0:
            qc = qs.copy()
        else:
            qc = qs.compile()
        want = {}
        for x, a in qlib.amps(c).items():
            want[x] = a
        check_state(qc, qb, want, "raw" if mode == 0 else "compiled")


def check_state(qc, qb, want, what):
    """State of qc restricted to qb (in this order, qubit i = bit i), all other qubits must be |0>, up to a phase."""
    names = [b.identifier for b in qc.qubits]
    idle = []
    pos = []
    for i, b in enumerate(qb):
        if b.identifier in names:
            pos.append(names.index(b.identifier))
        else:
            idle.append(i)
            pos.append(None)
    vec = np.asarray(qc.statevector_array())
    nq = len(names)
    got = {}
    for y in np.nonzero(np.abs(vec) > 1e-6)[0]:
        y = int(y)
        x, rest = 0, y
        for i, p in enumerate(pos):
            if p is not None:
                m = 1 << (nq - 1 - p)
                if y & m:
                    x |= 1 << i
                    rest &= ~m
        if rest:
            if abs(vec[y]) > 1e-3:
                raise Violation(f"{what}: ancilla left dirty", f"basis {y:0{nq}b} amplitude {vec[y]}")
            continue
        got[x] = got.get(x, 0) + vec[y]
    compare(got, want, what)


def compare(got, want, what, tol=5e-4):
    ip = sum(np.conj(got.get(x, 0)) * a for x, a in want.items())
    if abs(abs(ip) - 1) > 1e-2:
        raise Violation(f"{what}: wrong state", f"overlap {abs(ip)}\n got {dict(list(got.items())[:8])}\nwant {dict(list(want.items())[:8])}")
    ph = ip / abs(ip)
    for x in set(got) | set(want):
        if abs(got.get(x, 0) * ph - want.get(x, 0)) > tol:
            raise Violation(f"{what}: wrong amplitude", f"basis {x}: {got.get(x, 0) * ph} instead of {want.get(x, 0)}")


def direct(qubits, o):
    """Append a controlled gate as one instruction instead of through an environment."""
    op = qlib.base_gate(o["g"], qlib.params(o)).control(len(o["c"]), ctrl_state=qlib.bits(o["s"]))
    qubits[0].qs().append(op, [qubits[i] for i in o["c"] + o["q"]])


class Replay:
    def __init__(self, c, qb, owner):
        self.c, self.qb, self.owner = c, list(qb), owner
        self.toks = c["toks"]
        self.rs = c["_rs"]
        self.i = 0
        self.iters = 0  # open iteration environments: they refuse the truth values of multi-controls

    def run(self):
        while self.i < len(self.toks):
            self.step()

    def body(self):
        while self.toks[self.i]["t"] != "close":
            self.step()
        self.i += 1

    def apply(self, o, local=None, style=0):
        qlib.fn_apply(self.qb + ([local] if local is not None else []), o, style)

    def step(self):
        import qrisp as q
        t = self.toks[self.i]
        pos = self.i
        self.i += 1
        kind = t["t"]
        if kind == "gate":
            self.apply(t["op"], style=(self.rs + pos) % 2 if not self.iters else 0)
        elif kind == "local":
            tmp = q.QuantumBool() if (self.rs + pos) % 2 else q.QuantumVariable(1)
            for key in "vwu":
                for o in t[key]:
                    self.apply(o, tmp[0])
            tmp.delete()
        elif kind == "cust":
            self.cust(t)
        elif kind == "open":
            self.iters += t["kind"] == "iter"
            with self.env(t, pos):
                self.body()
            self.iters -= t["kind"] == "iter"
        else:
            raise AssertionError(kind)

    def content(self, pos):
        """Does the environment opened at pos contain any instruction?"""
        depth = 1
        for t in self.toks[pos + 1:]:
            if t["t"] == "open":
                depth += 1
            elif t["t"] == "close":
                depth -= 1
                if not depth:
                    return False
            elif t["t"] != "gate" or t["op"]["g"] != "barrier":
                return True

    def cust(self, t):
        import qrisp as q
        qb = self.qb

        @q.custom_control
        def f(qubits, ctrl=None):
            if ctrl is None:
                for o in t["a"]:
                    qlib.fn_apply(qubits, o)
            else:
                for o in t["b"]:
                    k = len(qubits)
                    qlib.fn_apply(qubits + [ctrl], dict(o, c=[k] + o["c"], s=[1] + o["s"]))

        f(list(qb))

    def env(self, t, pos):
        import qrisp as q
        k = t["kind"]
        c = [self.qb[i] for i in t["c"]]
        var = (self.rs + pos) % 4
        if k == "control":
            s = qlib.bits(t["s"])
            inv = bool(t["inv"])
            if len(c) == 1 and s == "1" and not inv:
                own = self.owner[c[0]]
                if var == 0 and isinstance(own, q.QuantumBool):
                    return own
                return q.control(c[0]) if var < 2 else q.control(c)
            num = sum(b << i for i, b in enumerate(t["s"]))
            return q.control(c, ctrl_state=s if var < 2 else num, invert=inv)
        if k == "cond":
            pats = t["pats"]

            def predicate(*qubits):
                res = q.QuantumBool()
                for p in pats:
                    q.mcx(list(qubits), res[0], ctrl_state=qlib.bits(p))
                return res

            if var < 2:
                return q.quantum_condition(predicate)(*c)
            return q.ConditionEnvironment(predicate, c)
        if k == "invert":
            return q.invert()
        if k == "conj":
            def prepare_basis(qubits):
                for o in t["v"]:
                    if self.iters and o["g"] not in ("x", "z", "p") and len(o["c"]) > 1:
                        direct(qubits, o)
                    else:
                        qlib.fn_apply(qubits, o)

            return q.conjugate(prepare_basis)(list(self.qb))
        if k == "plain":
            return q.QuantumEnvironment()
        if k == "wrap":
            return q.GateWrapEnvironment("wrapped") if var < 2 else q.GateWrapEnvironment()
        if k == "iter":
            if not self.content(pos):
                return q.QuantumEnvironment()  # nothing to repeat: the environment would not find its session
            return q.IterationEnvironment(self.qb[0].qs(), t["reps"], precompile=bool(t["inv"]))
        if k == "gms":
            return q.GMSEnvironment()
        raise AssertionError(k)


CHECK = P06
