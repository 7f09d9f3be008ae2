"""P15: quantum arrays behave like arrays."""
import operator

import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs
from vals import match, observe, prepare


class P15(Check):
    pid = "P15"
    method = "spawn"
    rule = ("A case is one history of view, write, copy, rearrangement, quantum indexing and element-wise operations on arrays generated by TLC "
            "from ArrayProg.tla with the cells of every view and the contents of every branch; non-trivial: at least two steps.")
    assumptions = ["contents per branch exact, probabilities to 5e-3, relative phases to 2e-2; helper qubits in |0>",
                   "an index outside the array has to be refused by any exception"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=70, out_const="OutFile")
        base = dict(Sampling=True, MinLen=1, MaxH=3)
        ex = dict(Sampling=False, MinLen=1, MaxLen=2, MaxH=1, Budget=6, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="ArrayProg", consts=ex, workers=2, invariants=["Rev", "InRange", "Sane"])]
        out += simulate_jobs("ArrayProg", dict(base, MaxLen=6, Budget=14, Profile="views"), 700 * f, 2, SEED, tag="views", **kw)
        out += simulate_jobs("ArrayProg", dict(base, MaxLen=4, Budget=13, Profile="ops"), 800 * f, 3, SEED + 30, tag="ops", **kw)
        return out

    def trivial(self, c):
        return len(c["toks"]) < 2

    def prepare(self):
        qlib.warm()

    def key(self, k, n, r):
        if k["k"] == "i":
            return k["a"] if r % 3 else k["a"] - n
        if k["k"] == "r":
            return slice(None, None, -1)
        a, b = k["a"], k["b"]
        a = None if a == 0 and r % 2 else a - n if r % 5 == 1 and a else a
        b = (None if r % 2 else n + 3 if r % 3 else n) if b == n else b - n if r % 4 == 1 else b
        return slice(a, b, k["st"] if k["st"] > 1 or r % 3 == 0 else None)

    def coords(self, c, sh, r):
        c = tuple(x if (r >> i) % 3 else x - n for i, (x, n) in enumerate(zip(c, sh)))
        return c if len(c) > 1 or r % 2 else c[0]

    def execute(self, c):
        import numpy as np
        import qrisp as q
        rs = c["_rs"]
        ini = c["init"]
        mk = dict(bool=lambda: q.QuantumBool(), u1=lambda: q.QuantumFloat(1), u2=lambda: q.QuantumFloat(2), s2=lambda: q.QuantumFloat(1, signed=True))[ini["ty"]]

        def shape(sh, r):
            return sh[0] if len(sh) == 1 and r % 2 else tuple(sh)

        def val(ty, code):
            return code - 4 if ty == "s2" and code > 1 else bool(code) if ty in ("bool", "bool1") else code
        arrs, cells = [], []

        def add(a, new=True):
            arrs.append(a)
            if new:
                if isinstance(a, q.QuantumArray):
                    cells.extend(list(a.flatten()))
                else:
                    cells.append(a)
        add(q.QuantumArray(mk(), shape(ini["sh"], rs)))
        for s in ini["ix"]:
            add(q.QuantumFloat(s))
        if ini["sh2"]:
            add(q.QuantumArray(mk(), shape(ini["sh2"], rs)))
        prepare(ini, [list(v.reg) for v in cells[:len(ini["fs"])]])
        for n, t in enumerate(c["toks"]):
            k, r = t["t"], rs + 7 * n
            a = arrs[t["a"] - 1]
            sp = c["arr"][t["a"] - 1]
            if k == "slice":
                key = tuple(self.key(x, m, r + i) for i, (x, m) in enumerate(zip(t["ks"], sp["sh"])))
                add(a[key if len(key) > 1 or r % 2 else key[0]], False)
            elif k == "oob":
                key = tuple(t["i"] if i == t["ax"] - 1 else 0 if t["all"] else slice(None) for i in range(len(sp["sh"])))
                try:
                    a[key if len(key) > 1 or r % 2 else key[0]]
                except Exception:
                    continue
                raise Violation("index out of bounds accepted", f"{key} for shape {sp['sh']}")
            elif k == "reshape":
                sh = t["sh"]
                add(a.flatten() if len(sh) == 1 and r % 3 == 0 else a.ravel() if len(sh) == 1 and r % 3 == 1 else a.reshape(*sh) if r % 2 else a.reshape(tuple(sh)), False)
            elif k == "transpose":
                p = tuple(t["p"])
                add(a.transpose() if p == tuple(range(len(p)))[::-1] and r % 2 else a.transpose(*p) if r % 3 else a.transpose(p), False)
            elif k == "swapaxes":
                add(a.swapaxes(t["x"], t["y"]), False)
            elif k == "concat":
                b = arrs[t["b"] - 1]
                add(a.concatenate(b) if t["ax"] == 0 and r % 2 else a.concatenate(b, axis=t["ax"]), False)
            elif k == "flip":
                q.x(a[self.coords(t["c"], sp["sh"], r)][t["q"]])
            elif k == "write":
                vs = np.array([val(sp["ty"], x) for x in t["vs"]]).reshape(sp["sh"])
                a[(slice(None),) * len(sp["sh"]) if r % 2 else slice(None)] = vs if r % 3 else vs.tolist()
            elif k == "dup":
                add(a.duplicate(init=t["ini"]) if t["ini"] or r % 2 else a.duplicate())
            elif k == "del":
                a.delete(verify=bool(r % 2))
            elif k == "add":
                y = t["cs"][0] if t["sc"] else np.array(t["cs"]).reshape(sp["sh"])
                if t["sub"]:
                    a -= y
                else:
                    a += y
            elif k == "addq":
                a += arrs[t["b"] - 1]
            elif k == "shift":
                q.cyclic_shift(a, t["s"])
            elif k == "shiftq":
                q.cyclic_shift(a, arrs[t["x"] - 1])
            elif k == "permute":
                q.permute_iterable(a, t["p"])
            elif k == "qflip":
                ix = tuple(arrs[x - 1] for x in t["x"])
                with a[ix if len(ix) > 1 or r % 2 else ix[0]] as e:
                    q.x(e[t["q"]])
            elif k == "qread":
                add(q.q_indexing(a, arrs[t["x"][0] - 1]))
            elif k == "qswap":
                q.q_swap_into(a, arrs[t["x"][0] - 1], arrs[t["e"] - 1])
            elif k == "reduce":
                add(getattr(a, t["o"])() if t["ax"] == 99 else getattr(a, t["o"])(axis=t["ax"] if r % 2 else t["ax"] - len(sp["sh"])))
            elif k == "relate":
                add(getattr(operator, t["o"])(a, np.array(t["cs"]).reshape(sp["sh"])))
        if len(cells) != len(c["cells"]):
            raise Violation("wrong number of elements", f"{len(cells)} instead of {len(c['cells'])}")
        # views address their cells
        for a, sp in zip(arrs, c["arr"]):
            if not isinstance(a, q.QuantumArray):
                continue
            if list(a.shape) != sp["sh"] or a.size != len(sp["ind"]) or len(a) != sp["sh"][0] or a.ndim != len(sp["sh"]):
                raise Violation("wrong shape", f"{a.shape} instead of {sp['sh']}")
            got = [[str(b) for b in e.reg] for e in a]
            want = [[str(b) for b in cells[i - 1].reg] for i in sp["ind"]]
            if all(c["cells"][i - 1]["st"] for i in sp["ind"]) and got != want:
                raise Violation("view addresses the wrong elements", f"{got} instead of {want}")
        for v, x in zip(cells, c["cells"]):
            if v.is_deleted() != (x["st"] == 0):
                raise Violation("wrong element deleted", f"{v.name} deleted: {v.is_deleted()}")
        live = [i for i, x in enumerate(c["cells"]) if x["st"]]
        if not live:
            return
        q.merge([cells[i].qs for i in live])
        br = [dict(v=[b["v"][i] for i in live], ph=b["ph"]) for b in c["br"]]
        qc = cells[live[0]].qs.compile(workspace=rs // 6 % 3)
        match(observe(qc, [list(cells[i].reg) for i in live]), br, lambda bits: [sum(x << j for j, x in enumerate(b)) for b in bits], "compiled")
        # measured arrays
        cand = [(a, sp) for a, sp in zip(arrs, c["arr"]) if isinstance(a, q.QuantumArray) and all(c["cells"][i - 1]["st"] for i in sp["ind"])
                and len(set(sp["ind"])) == len(sp["ind"])]
        for a, sp in cand[-2:]:
            want = {}
            for b in c["br"]:
                key = tuple(val(sp["ty"], b["v"][i - 1]) for i in sp["ind"])
                want[key] = want.get(key, 0) + 1 / len(c["br"])
            got = {}
            for o, p in a.get_measurement().items():
                if list(np.array(o).shape) != sp["sh"]:
                    raise Violation("measured array has the wrong shape", f"{np.array(o).shape} instead of {sp['sh']}")
                key = tuple(x.item() if hasattr(x, "item") else x for x in np.array(o).flatten())
                got[key] = got.get(key, 0) + p
            if set(got) != set(want) or any(abs(got[x] - want[x]) > 5e-3 for x in want):
                raise Violation("measured arrays differ", f"{got} instead of {want}")
            best = max(want.values())
            top = tuple(x.item() if hasattr(x, "item") else x for x in np.array(a.most_likely()).flatten())
            if want[top] < best - 5e-3:
                raise Violation("most likely array is not the most likely", f"{top} of {want}")


CHECK = P15
