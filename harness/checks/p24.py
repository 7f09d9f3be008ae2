"""P24: Hamiltonian simulation."""
import math

import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs


class P24(Check):
    pid = "P24"
    method = "spawn"
    rule = ("A case is an input state, an operator with per-step angles, the formula order, step count and control, generated by TLC from TrotProg.tla with the exact "
            "resulting states for every order of the terms (a single one if the terms commute); non-trivial: at least two terms or a ladder or projector factor.")
    assumptions = ["angles are multiples of pi/4 and of one Pythagorean angle per elementary step"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        ex = dict(Sampling=False, MaxN=1, MaxTerms=1, MaxReps=1, MaxPyth=0, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="TrotProg", consts=ex, workers=2, invariants=["EvolveUnitary", "EvolveInverse"])]
        kw = dict(depth=80, out_const="OutFile")
        b = dict(Sampling=True, MaxPyth=1)
        out += simulate_jobs("TrotProg", dict(b, MaxN=3, MaxTerms=3, MaxReps=3, Profile="commuting"), 500 * f, 2, SEED, tag="commuting", **kw)
        out += simulate_jobs("TrotProg", dict(b, MaxN=3, MaxTerms=3, MaxReps=2, Profile="mixed"), 500 * f, 2, SEED + 1, tag="mixed", **kw)
        out += simulate_jobs("TrotProg", dict(b, MaxN=3, MaxTerms=3, MaxReps=2, Profile="pauli"), 300 * f, 1, SEED + 2, tag="pauli", **kw)
        out += simulate_jobs("TrotProg", dict(b, MaxN=4, MaxTerms=1, MaxReps=3, Profile="pyth"), 300 * f, 1, SEED + 3, tag="single", **kw)
        out += simulate_jobs("TrotProg", dict(b, MaxN=3, MaxTerms=3, MaxReps=2, Profile="pyth"), 200 * f, 1, SEED + 4, tag="pyth", **kw)
        return out

    def trivial(self, c):
        return len(c["hs"]) == 1 and all(f in "IXYZ" for f in c["hs"][0]["fs"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import numpy as np
        import qrisp as q
        from qrisp.operators.qubit import QubitOperator
        from qrisp.operators.qubit.qubit_term import QubitTerm
        from checks.p06 import compare
        n, rs = c["n"], c["_rs"]
        t = [1, 0.5, -1.5, 2][rs % 4]
        total = c["reps"]
        iters = 2 if total == 2 and (rs // 4) % 2 else 3 if total == 3 and (rs // 4) % 2 else 1
        steps = total // iters
        forward = (rs // 8) % 5 != 0
        method = ["commuting_qw", "commuting"][(rs // 64) % 2]
        terms = {}

        def add(fs, v):
            x = QubitTerm({i: f for i, f in enumerate(fs) if f != "I"})
            terms[x] = terms.get(x, 0) + v
        for j, h in enumerate(c["hs"]):
            fs = h["fs"]
            a = qlib.ang(h["a"]) * c["ord"] * steps / t * (1 if forward else -1)
            lad = any(f in "AC" for f in fs)
            if lad:
                v = 2 * a * (1j if h["im"] else 1)
                if (rs >> (8 + j)) % 2:
                    adj = [{"A": "C", "C": "A"}.get(f, f) for f in fs]
                    add(fs, v / 2)
                    add(adj, np.conj(v) / 2)
                else:
                    add(fs, v)
            else:
                add(fs, a)
        H = QubitOperator(terms)
        qv = q.QuantumVariable(n)
        cq = q.QuantumVariable(1) if c["ctl"] else None
        qb = [qv[i] for i in range(n)] + ([cq[0]] if c["ctl"] else [])
        for o in c["prog"]:
            qlib.fn_apply(qb, o)
        U = H.trotterization(order=c["ord"], method=method, forward_evolution=forward)
        kw = dict(t=t, steps=steps, iter=iters)
        if c["ctl"]:
            with q.control(cq[0]):
                U(qv, **kw)
            qv.qs
        else:
            U(qv, **kw)
        qc = qv.qs.compile()
        err = None
        for o in c["outs"]:
            try:
                self.check(qc, qb, qlib.amps(o))
                return
            except Violation as e:
                err = e
        what = "commuting terms" if c["comm"] else "no product formula"
        raise Violation(f"evolution ({what}, {method})", f"{H} order {c['ord']} {kw} forward {forward} control {c['ctl']}: {err}")

    def check(self, qc, qb, want):
        from checks.p06 import check_state
        check_state(qc, qb, want, "evolution")


CHECK = P24
