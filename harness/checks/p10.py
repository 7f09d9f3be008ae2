"""P10: arithmetic of quantum numbers on every branch of a superposition."""
import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs
from vals import SCALE, match, observe, prepare, read


class P10(Check):
    pid = "P10"
    method = "spawn"
    rule = ("A case is one arithmetic program over superposed quantum numbers generated by TLC from ArithProg.tla with the table of values of "
            "every branch; non-trivial: at least two branches or an operation on two numbers.")
    assumptions = ["values per branch exact, probabilities to 5e-3, relative phases to 2e-2; helper qubits in |0>",
                   "in-place addition of a number with finer resolution than the target is not used (it rounds)",
                   "divisors are non-zero on every branch"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=90, out_const="OutFile")
        base = dict(Sampling=True, MinV_=2, MaxV_=3, MinLen=1, MaxLen=4, MaxH=4)
        ex = dict(Sampling=False, MinV_=2, MaxV_=2, MaxSz=1 if f == 1 else 2, MinLen=2, MaxLen=2, MaxH=1, Budget=12, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="ArithProg", consts=ex, workers=2, invariants=["Rev", "InFormat"])]
        out += simulate_jobs("ArithProg", dict(base, MaxSz=3, Budget=17, Profile="mixed"), 700 * f, 3, SEED, tag="mixed", **kw)
        out += simulate_jobs("ArithProg", dict(base, MaxSz=3, Budget=16, Profile="int"), 300 * f, 2, SEED + 40, tag="int", **kw)
        out += simulate_jobs("ArithProg", dict(base, MaxSz=3, MinLen=1, MaxLen=2, Budget=21, Profile="div"), 120 * f, 1, SEED + 70, tag="div", **kw)
        return out

    def trivial(self, c):
        return len(c["br"]) < 2 and not any("b" in t for t in c["toks"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        rs = c["_rs"]
        vs = [q.QuantumFloat(f["sz"] - (1 if f["sg"] else 0), f["e"], signed=f["sg"]) for f in c["init"]["fs"]]
        prepare(c["init"], [v.reg for v in vs])
        tol = {}
        for k, t in enumerate(c["toks"]):
            self.step(t, vs, tol, rs + k)
        q.merge([v.qs for v in vs])
        fmts = [(v.exponent, v.signed) for v in vs]
        regs = [list(v.reg) for v in vs]
        if rs % 5 == 0:
            qc = vs[0].qs.compile(compile_mcm=bool(rs % 2), workspace=rs // 5 % 3)
        else:
            qc = vs[0].qs.compile()
        got = observe(qc, regs)

        def reader(bits):
            return [read(b, *f) for b, f in zip(bits, fmts)]

        def accept(want, vals):
            for i, (w, x) in enumerate(zip(want, vals)):
                if i in tol:
                    kind, p = tol[i]
                    a, b = w
                    if kind == "quo" and not abs(x * b - (a << SCALE)) < abs(b) * 2 ** (SCALE - p):
                        return False
                    if kind == "rem" and x * 2 ** SCALE != a * 2 ** SCALE - vals[i - 1] * b:
                        return False
                elif w != x:
                    return False
            return True
        match(got, c["br"], reader, "compiled", accept)

    def step(self, t, vs, tol, r):
        import qrisp as q
        k, a = t["t"], vs[t["a"] - 1]
        b = vs[t["b"] - 1] if "b" in t else None
        u = 2.0 ** int(a.exponent) if int(a.exponent) < 0 else 2 ** int(a.exponent)
        cl = t["c"] * u if "c" in t else None
        if k == "add":
            vs.append(a + b)
        elif k == "sub":
            vs.append(a - b)
        elif k == "mul":
            vs.append(a * b if r % 4 else q.q_mult(a, b))
        elif k == "mulc":
            vs.append(a * t["c"] if r % 2 else t["c"] * a)
        elif k == "addc":
            vs.append(a + cl)
        elif k == "radd":
            vs.append(cl + a)
        elif k == "subc":
            vs.append(a - cl)
        elif k == "rsubc":
            vs.append(cl - a)
        elif k in ("iadd", "isub", "iaddc", "isubc"):
            y = b if b is not None else cl

            def f():
                x = a
                if k[:4] == "iadd":
                    x += y
                else:
                    x -= y
            e = t["e"]
            if e["k"] == "inv":
                with q.invert():
                    f()
            elif e["k"] == "ctl":
                with q.control(vs[e["q"] - 1][e["j"]], ctrl_state=e["b"]):
                    f()
            else:
                f()
        elif k == "imulc":
            a *= t["c"]
        elif k == "shl":
            a <<= t["c"]
        elif k == "shr":
            a >>= t["c"]
        elif k == "expshift":
            a.exp_shift(t["c"])
        elif k == "qshc":
            a.quantum_bit_shift(t["c"])
        elif k == "qsh":
            a.quantum_bit_shift(b)
        elif k == "copy":
            f = t["f"]
            x = q.QuantumFloat(f["sz"] - (1 if f["sg"] else 0), f["e"], signed=f["sg"])
            x.init_from(a)
            vs.append(x)
        elif k == "dup":
            vs.append(a.duplicate(init=True))
        elif k == "pow":
            vs.append(a ** t["c"])
        elif k == "floor":
            vs.append(a // b)
        elif k == "div":
            tol[len(vs)] = ("quo", t["c"])
            vs.append(q.q_div(a, b, prec=t["c"]))
        elif k == "divmod":
            tol[len(vs)] = ("quo", t["c"])
            tol[len(vs) + 1] = ("rem", t["c"])
            vs.extend(q.q_divmod(a, b, prec=t["c"]))
        else:
            raise ValueError(k)


CHECK = P10
