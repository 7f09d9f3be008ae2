"""P13: encoding, initialisation and measurement are inverse to each other."""
import math

import numpy as np

import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs

SC = 256


class P13(Check):
    pid = "P13"
    method = "spawn"
    rule = ("A case is one history of writing, copying and measuring variables of different types generated by TLC from TypeProg.tla with the "
            "amplitude of every combination of labels; non-trivial: a superposition, two variables or a refused write.")
    assumptions = ["amplitudes up to one global phase to 5e-3, probabilities to 5e-3", "8 shots of sampling per case",
                   "user types: listed labels and a decoder that maps two codes to one label"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=60, out_const="OutFile")
        base = dict(Sampling=True, MinLen=1, Profile="mixed")
        ex = dict(Sampling=False, MinLen=1, MaxLen=1, MaxVars=1 if f == 1 else 2, MaxQ=6, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="TypeProg", consts=ex, workers=2, invariants=["Inj", "Rev", "InRange"])]
        out += simulate_jobs("TypeProg", dict(base, MaxLen=5, MaxVars=3, MaxQ=11), 1500 * f, 3, SEED, tag="mixed", **kw)
        out += simulate_jobs("TypeProg", dict(base, MaxLen=3, MaxVars=1, MaxQ=9), 600 * f, 2, SEED + 30, tag="single", **kw)
        return out

    def trivial(self, c):
        return len(c["rows"]) < 2 and len(c["ty"]) < 2 and not any(t["t"] in ("refuse", "bad") for t in c["toks"])

    def prepare(self):
        qlib.warm()

    def make(self, t, q):
        k = t["k"]
        if k == "qv":
            return q.QuantumVariable(t["sz"])
        if k == "float":
            return q.QuantumFloat(t["sz"] - t["sg"], t["e"], signed=t["sg"])
        if k == "bool":
            return q.QuantumBool()
        if k == "mod":
            v = q.QuantumModulus(t["n"])
            v.m = t["m"]
            return v
        if k == "char":
            return q.QuantumChar()
        if k == "charx":
            return q.QuantumChar(nisq_char=False)
        if k == "custom":
            return q.QuantumVariable.custom(CUSTOM[:t["n"]])
        if k == "str":
            return q.QuantumString(2)

        class Merge(q.QuantumVariable):
            def decoder(self, i):
                return i // 2
        return Merge(t["sz"])

    def label(self, t, lab):
        k = t["k"]
        if k == "qv":
            return "".join(map(str, lab["b"]))
        if k == "float":
            return lab["x"] / SC
        if k == "bool":
            return bool(lab["i"])
        if k in ("char", "str"):
            return lab["s"]
        if k == "charx":
            return chr(lab["i"])
        if k == "custom":
            return f"undefined_label_{lab['i']}" if lab["u"] else CUSTOM[lab["i"]]
        return lab["i"]

    def execute(self, c):
        import qrisp as q
        rs = c["_rs"]
        ty = list(c["ty"])
        ndup = sum(t["t"] == "dup" for t in c["toks"])
        ty0 = ty[:len(ty) - ndup]
        vs = [self.make(t, q) for t in ty0]
        for k, t in enumerate(c["toks"]):
            self.step(t, vs, ty, rs + k, q)
        self.observe(c, vs, ty, rs, q)

    def qubit(self, v, t, i):
        return v[i // 5][i % 5] if t["k"] == "str" else v[i]

    def step(self, t, vs, ty, r, q):
        i = t["i"] - 1
        v, y = vs[i], ty[i]
        k = t["t"]
        if k == "val":
            lab = self.label(y, t["l"])
            if r % 3 and y["k"] != "str":
                v.encode(lab)
            else:
                v[:] = lab
        elif k == "sup":
            labs = [self.label(y, x) for x in t["ls"]]
            am = [complex(a, b) for a, b in t["am"]]
            if t["how"] == "item":
                v[:] = dict(zip(labs, am))
            elif t["how"] == "dict":
                v.init_state(dict(zip(labs, am)))
            else:
                vec = np.zeros(2 ** y["sz"], complex)
                for code, a in zip(t["cs"], am):
                    vec[code] = a
                v.init_state(vec, method=t["how"])
        elif k == "from":
            if r % 2:
                v[:] = vs[t["j"] - 1]
            else:
                v.init_from(vs[t["j"] - 1])
        elif k == "dup":
            vs.append(v.duplicate(init=t["init"]))
        elif k == "x":
            q.x(self.qubit(v, y, t["q"]))
        elif k == "cx":
            q.cx(self.qubit(v, y, t["q"]), self.qubit(vs[t["j"] - 1], ty[t["j"] - 1], t["r"]))
        elif k == "ph":
            getattr(q, t["g"])(self.qubit(v, y, t["q"]))
        elif k == "dirty":
            v.encode(self.label(y, t["l"]), permit_dirtyness=True)
        elif k == "round":
            v.encode(t["x"] / SC, rounding=True)
        elif k == "refuse":
            try:
                v.encode(self.label(y, t["l"]))
            except Exception:
                return
            raise Violation("write on used qubits accepted", repr(t))
        elif k == "bad":
            try:
                v.encode(t["x"] / SC)
            except Exception:
                return
            raise Violation(f"number {t['o']} the representable ones accepted", f"{t['x'] / SC} in {y}")

    def observe(self, c, vs, ty, rs, q):
        rows = c["rows"]
        norm = sum(r["re"] ** 2 + r["im"] ** 2 for r in rows)
        labs = [[self.label(t, x) for t, x in zip(ty, r["l"])] for r in rows]
        ps = [(r["re"] ** 2 + r["im"] ** 2) / norm for r in rows]
        for t, v in zip(ty, vs):
            if t["k"] in ("str", "merge") or t["k"] == "charx" and rs % 8:
                continue
            for code in (range(t["n"]) if t["k"] == "mod" else range(2 ** t["sz"])):
                got = v.encoder(v.decoder(code))
                if int(got) != code:
                    raise Violation("encoder does not invert decoder", f"{code} -> {v.decoder(code)!r} -> {got} in {t}")
        # one variable
        for j, (t, v) in enumerate(zip(ty, vs)):
            want = {}
            for lab, p in zip(labs, ps):
                want[lab[j]] = want.get(lab[j], 0) + p
            got = v.get_measurement(compile=(rs + j) % 3 != 0) if t["k"] != "str" else v.get_measurement()
            self.compare(got, want, f"measurement of {t['k']}")
            if t["k"] == "float":
                if abs(v.get_ev() - sum(k * p for k, p in want.items())) > 2e-2 * max(1, max(abs(k) for k in want)):
                    raise Violation("mean of a number", f"{v.get_ev()} instead of {want}")
            if t["k"] != "str":
                best = sorted(want.values())
                if len(best) == 1 or best[-1] - best[-2] > 1e-3:
                    if v.most_likely() != max(want, key=want.get):
                        raise Violation("most likely label", f"{v.most_likely()} instead of {want}")
            if rs % 5 == 0:
                got = v.get_measurement(shots=8)
                if abs(sum(got.values()) - 1) > 1e-6 or any(k not in want or abs(p * 8 - round(p * 8)) > 1e-6 for k, p in got.items()):
                    raise Violation("sampled measurement", f"{dict(got)} instead of {want}")
        # several variables
        order = [i - 1 for i in c["ord"]]
        if len(order) > 1 and rs % 4 == 0:
            order = order[:-1]
        if all(ty[j]["k"] != "str" for j in order):
            want = {}
            for lab, p in zip(labs, ps):
                key = tuple(lab[j] for j in order)
                want[key] = want.get(key, 0) + p
            try:
                got = q.multi_measurement([vs[j] for j in order])
                self.compare(got, want, "joint measurement")
            except Violation as ex:
                raise Violation(ex.sig + (" with merged labels" if any(ty[j]["k"] == "merge" for j in order) else ""), ex.detail)
        # amplitudes
        q.merge([v.qs for v in vs])
        qs = vs[0].qs
        if any(t["k"] in ("str", "merge") for t in ty):
            return
        fn = qs.statevector("function")
        ph = None
        for lab, r in zip(labs, rows):
            a = complex(fn(dict(zip(vs, lab))))
            w = complex(r["re"], r["im"]) / math.sqrt(norm)
            if ph is None:
                ph = a / w
                if abs(abs(ph) - 1) > 5e-3:
                    raise Violation("amplitude", f"{lab}: {a} instead of {w}")
            if abs(a - ph * w) > 5e-3:
                raise Violation("amplitude", f"{lab}: {a} instead of {ph * w}")

    def compare(self, got, want, what):
        got = dict(got)
        if abs(sum(got.values()) - 1) > 5e-3:
            raise Violation(f"{what}: not normalised", f"{got} instead of {want}")
        for k in set(got) | set(want):
            if abs(got.get(k, 0) - want.get(k, 0)) > 5e-3:
                raise Violation(f"{what}: wrong distribution", f"{got} instead of {want}")
        ps = list(got.values())
        if any(a < b - 1e-9 for a, b in zip(ps, ps[1:])):
            raise Violation(f"{what}: not ordered by probability", f"{got}")


CUSTOM = ["lorem", 42, (1, 2), "sit", 0.5, -3]
CHECK = P13
