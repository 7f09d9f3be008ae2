"""P02: mid-circuit measurement, reset and classical control."""
import qlib
from common import Check, Violation, SEED, TIER, simulate_jobs


class P02(Check):
    pid = "P02"
    rule = ("A case is one program of gates, measurements, resets and classically controlled gates generated by TLC from "
            "MeasProg.tla with the exact ensemble of its measurement branches; non-trivial: more than one branch or a "
            "reset or a conditioned gate.")
    assumptions = ["probabilities compared with tolerance 2e-3 (the simulator rounds outcome probabilities)",
                   "the outcome string lists the measured classical bits, highest index first"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        ex = dict(Sampling=False, MinN=1, MaxN=2, MinC=1, MaxC=1, MinLen=1, MaxLen=3, Profile="tiny", MaxPyth=0,
                  MaxBranch=8, OutFile="/dev/null")
        base = dict(Sampling=True, MaxPyth=2, MaxBranch=24)
        kw = dict(depth=60, out_const="OutFile")
        out = [dict(module="MeasProg", consts=dict(ex, MaxLen=3 if f == 1 else 4), workers=2,
                    invariants=["TotalProbability", "Recorded", "ResetClean"])]
        out += simulate_jobs("MeasProg", dict(base, MinN=1, MaxN=5, MinC=1, MaxC=4, MinLen=4, MaxLen=16,
                                              Profile="mixed"), 1200 * f, 3, SEED, tag="mixed", **kw)
        out += simulate_jobs("MeasProg", dict(base, MinN=1, MaxN=4, MinC=1, MaxC=3, MinLen=4, MaxLen=12,
                                              Profile="feedback"), 600 * f, 2, SEED + 1, tag="feedback", **kw)
        out += simulate_jobs("MeasProg", dict(base, MinN=1, MaxN=4, MinC=1, MaxC=3, MinLen=3, MaxLen=12,
                                              Profile="remeasure"), 600 * f, 2, SEED + 2, tag="remeasure", **kw)
        return out

    def trivial(self, c):
        return len(c["ens"]) < 2 and not any(o["t"] in ("reset", "cif") for o in c["prog"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        from qrisp import QuantumCircuit
        n, m = c["n"], c["m"]
        style = c["_rs"] % 2

        def build():
            qc = QuantumCircuit(n, m)
            for o in c["prog"]:
                if o["t"] == "gate":
                    qlib.circ_apply(qc, o["op"], style=style)
                elif o["t"] == "measure":
                    qc.measure(qc.qubits[o["q"]], qc.clbits[o["c"]])
                elif o["t"] == "reset":
                    qc.reset(qc.qubits[o["q"]])
                else:
                    g = o["op"]
                    op = qlib.base_gate(g["g"], qlib.params(g))
                    if g["c"]:
                        op = op.control(len(g["c"]), ctrl_state=qlib.bits(g["s"]))
                    qc.append(op.c_if(len(o["c"]), **qlib.cstate(o["s"], len(qc.data))), [qc.qubits[i] for i in g["c"] + g["q"]],
                              [qc.clbits[i] for i in o["c"]])
            return qc

        meas = sorted(c["measured"], reverse=True)
        want = {}
        for b in c["ens"]:
            key = "".join(str(b["cl"][i]) for i in meas)
            want[key] = want.get(key, 0) + qlib.prob(b["p"])
        got = build().run(shots=None)
        if not qlib.close_dist(got, want):
            raise Violation("outcome distribution", repr((got, want))[:2500])
        shots = 150
        got = build().run(shots=shots)
        if sum(got.values()) != shots:
            raise Violation("shot total", repr(got)[:500])
        if any(want.get(k, 0) < 1e-6 and v > 0 for k, v in got.items()):
            raise Violation("sampled an impossible outcome", repr((got, want))[:2500])


CHECK = P02
