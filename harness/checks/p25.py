"""P25: subroutine library."""
import warnings

import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs


class P25(Check):
    pid = "P25"
    method = "spawn"
    rule = ("A case is a prepared state and one call of a library routine (plain, under a control, or followed by its inverse), generated by TLC from PrimProg.tla with the "
            "exact resulting state; non-trivial: the state before the call is a superposition or the routine prepares one.")
    assumptions = ["Fourier transforms and phase registers up to three qubits, where all amplitudes are exact", "states compared up to a global phase"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        out = []
        for k in ("qft", "shift"):
            ex = dict(Sampling=False, Kind=k, MaxPrep=1, Profile="tiny", OutFile="/dev/null")
            out.append(dict(module="PrimProg", consts=ex, workers=2, invariants=["Unitary", "QftInverse"]))
        for i, (k, m) in enumerate([("qft", 320), ("refl", 250), ("aa", 200), ("qpe", 160), ("sw", 420), ("shift", 250), ("perm", 120), ("demux", 120), ("amp", 350)]):
            out += simulate_jobs("PrimProg", dict(Sampling=True, Kind=k, MaxPrep=6, Profile="mixed"), m * f, 1, SEED + i, tag=k, depth=40, out_const="OutFile")
        return out

    def trivial(self, c):
        return c["call"]["k"] != "amp" and len(c["v"]) < 2

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        warnings.simplefilter("ignore")
        import qrisp as q
        from checks.p06 import check_state
        a, rs, wrap = c["call"], c["_rs"], c["wrap"]
        vs = self.variables(q, a, rs, wrap)
        qb = [b for v in vs for b in (v[i] for i in range(len(v)))]
        if wrap == "ctrl":
            ctl = q.QuantumBool()
            qb.append(ctl[0])
            vs_all = vs + [ctl]
        else:
            vs_all = vs
        q.merge(vs_all)
        for o in c["prog"]:
            qlib.fn_apply(qb, o)
        call = self.routine(q, c, vs, qb)
        if wrap == "ctrl":
            with q.control(ctl if rs % 2 else ctl[0]):
                call()
            r = None
        else:
            r = call()
            if wrap == "undo":
                with q.invert():
                    call()
        if r is not None:
            qb += r
        want = qlib.amps(c)
        if a["k"] == "amp" and wrap != "undo":
            v = [complex(*z) for z in a["out"]]
            nm = sum(abs(z) ** 2 for z in v) ** 0.5
            v = {i: z / nm for i, z in enumerate(v) if z}
            start = (2 ** a["wt"] - 1) << (c["n"] - a["wt"]) if a["how"] == "dicke" else 0
            if wrap == "ctrl":
                top = 1 << c["n"]
                want = {start: 0.5 ** 0.5}
                want.update({i | top: z * 0.5 ** 0.5 for i, z in v.items()})
            else:
                want = v
        elif a["k"] == "amp" and a["how"] == "dicke":
            start = (2 ** a["wt"] - 1) << (c["n"] - a["wt"])
            want = {start: 1}
        qc = qb[0].qs().compile()
        if len(qc.qubits) > 16:
            return
        check_state(qc, qb, want, f"{a['k']} ({wrap})")

    def variables(self, q, a, rs, wrap):
        k, sz = a["k"], a["sizes"]
        if k in ("shift", "perm", "demux"):
            out = []
            if a.get("by"):
                if a.get("signed"):
                    out.append(q.QuantumFloat(len(a["by"]) - 1, a["exp"], signed=True))
                else:
                    out.append(q.QuantumFloat(len(a["by"]), a.get("exp", 0)))
            if k == "demux" and not a["inpl"]:
                out.append(q.QuantumVariable(a["sz"]) if rs % 2 else q.QuantumFloat(a["sz"]))
                self.it = None
                if wrap == "plain":
                    return out
                self.it = q.QuantumVariable(a["m"]) if a["as"] == "qubits" else q.QuantumArray(out[1], a["m"])
                return out + ([self.it] if a["as"] == "qubits" else list(self.it.flatten()))
            if a["as"] == "qubits":
                v = q.QuantumVariable(a["m"])
                self.it = v
                return out + [v]
            if a["as"] == "array":
                self.it = q.QuantumArray(q.QuantumFloat(a["sz"]), a["m"])
                return out + list(self.it.flatten())
            self.it = [q.QuantumVariable(a["sz"]) for _ in range(a["m"])]
            return out + list(self.it)
        return [(q.QuantumFloat(s) if (rs >> i) % 2 or (k == "sw" and i == 0) else q.QuantumVariable(s)) for i, s in enumerate(sz) if not (k == "qpe" and i == 1)] + \
               ([q.QuantumFloat(sz[1], -sz[1])] if k == "qpe" else [])

    def routine(self, q, c, vs, qb):
        import numpy as np
        a, rs = c["call"], c["_rs"]
        k = a["k"]

        def runner(ops):
            def f(first, *more):
                regs = (first,) + more
                bits = [b for v in regs for b in (v[i] for i in range(len(v)))]
                for o in ops:
                    qlib.fn_apply(bits, o)
            return f
        if k == "qft":
            kw = {}
            if a["way"] == "gms":
                kw["use_gms"] = True
            if a["way"] == "adder":
                kw["inpl_adder"] = q.fourier_adder if a["sizes"][0] > 1 or rs % 3 == 2 or c["wrap"] == "undo" else q.gidney_adder
            if a["mult"] != 1:
                kw["inplace_mult"] = a["mult"]
            return lambda: q.QFT(vs[0], inv=a["inv"], exec_swap=a["swap"], qiskit_endian=a["endian"], **kw) and None
        if k in ("refl", "aa"):
            args = vs[0] if len(vs) == 1 and rs % 2 else vs
            idx = None if a["part"] == 0 else [a["part"] - 1]
            sf = runner(a["sf"])
            if k == "aa":
                return lambda: q.amplitude_amplification(args, sf, runner(a["oracle"]), iter=a["iter"], reflection_indices=idx)
            if not a["sf"] and rs % 3:
                sf = None
            ph = {} if a["a"] == [4, 0] and rs % 2 else dict(phase=qlib.ang(a["a"]))
            return lambda: q.reflection(args, sf, reflection_indices=idx, **ph)
        if k == "qpe":
            u = runner(a["u"])

            def U(v, iter=1):
                for _ in range(iter):
                    u(v)
            return lambda: q.QPE(vs[0], U, target=vs[1], iter_spec=a["spec"]) and None
        if k == "sw":
            i = a["sizes"][0]
            sizes = a["sizes"][1:]
            fs = [runner([dict(o, q=[x - i for x in o["q"]], c=[x - i for x in o["c"]]) for o in b]) for b in a["br"]]
            index = vs[0]
            m = a["method"]
            if m == "parallel" and (len(vs) > 2 or i > 2 or (i == 2 and a["sizes"][1] > 1)):
                m = "tree"
            if rs % 5 == 0 and m != "parallel":
                index = [vs[0][j] for j in range(i)]
            if a["fn"]:
                kw = {} if len(fs) == 2 ** i and rs % 2 else dict(branch_amount=len(fs))
                br = lambda j, first, *ops: fs[j](first, *ops)
            else:
                kw, br = {}, list(fs)

            def call():
                n = len(br) if isinstance(br, list) else None
                q.q_switch(index, br, *vs[1:], method=m, **kw)
                if n is not None and len(br) != n:
                    raise Violation("list of branches changed", f"{n} branches became {len(br)}")
            if len(vs) == 2 and rs % 7 == 0:
                case = index
                return lambda: q.qswitch(vs[1], case, br, method=m, **({"case_amount": len(fs)} if kw else {}))
            return call
        if k == "shift":
            it = self.it if a["as"] != "vars" else list(self.it)
            return lambda: q.cyclic_shift(it, vs[0] if a["by"] else a["amount"])
        if k == "perm":
            return lambda: q.permute_iterable(self.it, list(a["perm"]))
        if k == "demux":
            kw = dict(parallelize_qc=True) if a["par"] else {}
            if a["inpl"]:
                return lambda: q.demux(self.it[0], vs[0], self.it, **kw) and None
            src = vs[1][0] if a["as"] == "qubits" else vs[1]
            if self.it is not None:
                return lambda: q.demux(src, vs[0], self.it, **kw) and None

            def call():
                out = q.demux(src, vs[0], **kw)
                return [b for v in ([out] if a["as"] == "qubits" else out.flatten()) for b in v]
            return call
        vec = np.array([complex(*z) for z in a["vec"]])
        if rs % 2 and not np.any(vec.imag):
            vec = vec.real
        if a["how"] == "prepare":
            return lambda: q.prepare(vs[0], vec, reversed=a["rev"], method=a["method"])
        if a["how"] == "wstate":
            return lambda: q.unbalanced_w_state(vs[0], vec)
        for i in range(c["n"] - a["wt"], c["n"]):
            q.x(vs[0][i])
        return lambda: q.dicke_state(vs[0], a["wt"])


CHECK = P25
