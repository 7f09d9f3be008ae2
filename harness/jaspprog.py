"""Structured programs of JaspProg.tla as traced Qrisp functions."""
import qlib


def measures(b):
    return any(s["t"] in ("meas", "set", "reset", "while") or measures(s.get("b", [])) or measures(s.get("e", [])) or any(measures(x) for x in s.get("bs", [])) for s in b)


class Prog:
    def __init__(self, c):
        import jax.numpy as jnp
        import qrisp as q
        from qrisp.jasp import jrange, q_cond, q_fori_loop, q_while_loop, qache
        self.q, self.jnp, self.jrange, self.q_cond, self.fori, self.loop = q, jnp, jrange, q_cond, q_fori_loop, q_while_loop
        self.c, self.n, self.rs = c, c["n"], c["_rs"]
        sub = c["sub"]

        def routine(qv, a):
            for o in sub:
                self.gate(qv, None, o, a, 0)
        self.routine = qache(routine) if self.rs % 3 else routine

    # one gate; d: shift of the data qubits (maybe a tracer)
    def gate(self, qv, cq, o, d, am):
        n = self.n

        def at(i):
            if i >= n:
                return cq[i - n]
            return qv[i] if isinstance(d, int) and d == 0 else qv[(i + d) % n]
        q = self.q
        g = o["g"]
        t, c = [at(i) for i in o["q"]], [at(i) for i in o["c"]]
        ps = qlib.params(o)
        if am:
            ps = [p * (d + 1) for p in ps]
        if g == "x" and c:
            if len(c) == 1 and o["s"] == [1]:
                q.cx(c[0], t[0])
            else:
                q.mcx(c, t[0], ctrl_state=qlib.bits(o["s"]))
        elif c and len(c) == 1 and o["s"] == [1] and g in ("y", "z", "p"):
            {"y": q.cy, "z": q.cz, "p": q.cp}[g](*ps, c[0], t[0])
        elif c:
            with q.control(c, ctrl_state=qlib.bits(o["s"])):
                getattr(q, g)(*ps, *t)
        else:
            getattr(q, g)(*ps, *t)

    def shift(self, lv, l):
        return lv[l - 1] if 0 < l <= len(lv) else 0

    def block(self, b, qv, cq, cl, lv):
        for s in b:
            self.stmt(s, qv, cq, cl, lv)

    def stmt(self, s, qv, cq, cl, lv):
        q, t = self.q, s["t"]
        if t == "g":
            self.gate(qv, cq, s["op"], self.shift(lv, s["l"]), s["am"])
        elif t == "call":
            self.routine(qv, s["a"] + self.shift(lv, s["l"]))
        elif t == "view":
            d = self.shift(lv, s["l"])
            lo = (s["lo"] + d) % self.n
            hi = s["hi"]
            if s["l"] == 0 and self.rs % 2:
                # the same bounds counted from the end
                lo = lo - self.n if lo > 0 and s["fu"] != "rot" else lo
                hi = hi - self.n if hi < self.n else hi
            w = {"cut": lambda: qv[lo:hi], "ctl": lambda: qv[lo:] + cq[:], "rot": lambda: qv[lo:] + qv[:lo]}[s["fu"]]()
            if s["i"] == 0:
                getattr(q, s["g"])(w)
            elif s["i"] <= self.n:
                getattr(q, s["g"])(w[s["i"] - 1])
        elif t == "ctl":
            c = [cq[i - self.n] for i in s["c"]]
            if len(c) == 1 and s["s"] == [1] and self.rs % 2:
                env = q.control(c[0])
            else:
                env = q.control(c, ctrl_state=qlib.bits(s["s"]))
            with env:
                self.block(s["b"], qv, cq, cl, lv)
        elif t == "inv":
            with q.invert():
                self.block(s["b"], qv, cq, cl, lv)
        elif t == "conj":
            def v(qv):
                for o in s["v"]:
                    self.gate(qv, cq, o, 0, 0)
            with q.conjugate(v)(qv):
                self.block(s["b"], qv, cq, cl, lv)
        elif t == "meas":
            d = self.shift(lv, s["l"])
            i = s["q"] if isinstance(d, int) and d == 0 else (s["q"] + d) % self.n
            cl[s["k"] - 1] = self.jnp.asarray(q.measure(qv[i]), dtype=cl[0].dtype)
        elif t == "reset":
            d = self.shift(lv, s["l"])
            i = s["q"] if isinstance(d, int) and d == 0 else (s["q"] + d) % self.n
            q.reset(qv[i])
        elif t == "set":
            a, b = cl[s["a"] - 1], cl[s["b"] - 1]
            cl[s["k"] - 1] = {"add": lambda: (a + b + 1) % 8, "mul": lambda: (a * b) % 8, "copy": lambda: a, "xor": lambda: (a + b) % 2}[s["op"]]()
        elif t == "for":
            m = s["n"] if s["dyn"] == 0 else cl[s["dyn"] - 1] % 4
            if not measures(s["b"]):
                for i in self.jrange(m):
                    self.block(s["b"], qv, cq, cl, lv + [i])
            else:
                def body(i, val):
                    qv, cq, *c = val
                    self.block(s["b"], qv, cq, c, lv + [i])
                    return (qv, cq, *c)
                cl[:] = self.fori(0, m, body, (qv, cq, *cl))[2:]
        elif t == "if":
            pred = cl[s["k"] - 1] == s["v"]
            if not measures(s["b"]) and not measures(s["e"]) and (self.rs // 7) % 2:
                with q.control(pred):
                    self.block(s["b"], qv, cq, cl, lv)
                if s["e"]:
                    with q.control(~pred):
                        self.block(s["e"], qv, cq, cl, lv)
            elif not measures(s["b"]) and not measures(s["e"]):
                self.q_cond(pred, lambda a, b: self.block(s["b"], a, b, cl, lv), lambda a, b: self.block(s["e"], a, b, cl, lv), qv, cq)
            else:
                def branch(b):
                    def f(qv, cq, *c):
                        c = list(c)
                        self.block(b, qv, cq, c, lv)
                        return (qv, cq, *c)
                    return f
                cl[:] = self.q_cond(pred, branch(s["b"]), branch(s["e"]), qv, cq, *cl)[2:]
        elif t == "switch":
            index = cl[s["k"] - 1] % len(s["bs"])
            if not any(measures(b) for b in s["bs"]):
                self.q.q_switch(index, [lambda x, y, b=b: self.block(b, x, y, cl, lv) for b in s["bs"]], qv, cq)
            else:
                def case(b):
                    def f(qv, cq, *c):
                        c = list(c)
                        self.block(b, qv, cq, c, lv)
                        return (qv, cq, *c)
                    return f
                cl[:] = self.q.q_switch(index, [case(b) for b in s["bs"]], qv, cq, *cl)[2:]
        elif t == "while":
            def body(val):
                i, qv, cq, *c = val
                self.block(s["b"], qv, cq, c, lv + [i])
                return (i + 1, qv, cq, *c)

            def cond(val):
                return (val[0] < s["max"]) & (val[2 + s["k"]] == s["v"])
            cl[:] = self.loop(cond, body, (self.jnp.asarray(0, dtype=cl[0].dtype), qv, cq, *cl))[3:]
        else:
            raise AssertionError(t)

    def start(self, a, b):
        q, jnp = self.q, self.jnp
        qv = q.QuantumFloat(self.n) if self.rs % 5 else q.QuantumVariable(self.n)
        cq = q.QuantumVariable(2)
        cl = [jnp.asarray(a, dtype=jnp.int64), jnp.asarray(b, dtype=jnp.int64)]
        self.block(self.c["prog"], qv, cq, cl, [])
        return qv, cq, cl
