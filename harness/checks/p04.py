"""P04: compiler passes never change what a circuit computes."""
import numpy as np

import qlib
from common import Check, Violation, SEED, TIER, simulate_jobs


def apply_step(qc, o, style):
    from qrisp import QuantumCircuit
    if o["t"] == "gate":
        qlib.circ_apply(qc, o["op"], style=style)
    elif o["t"] == "block":
        used = sorted({i for g in o["ops"] for i in g["q"] + g["c"]})
        sub = QuantumCircuit(len(used))
        ren = {q: sub.qubits[i] for i, q in enumerate(used)}
        for g in o["ops"]:
            qlib.circ_apply(sub, g, qubits=ren, style=style)
        op = sub.to_gate()
        if o["c"]:
            op = op.control(len(o["c"]), ctrl_state=qlib.bits(o["s"]))
        qc.append(op, [qc.qubits[i] for i in o["c"] + used])
    elif o["t"] == "measure":
        qc.measure(qc.qubits[o["q"]], qc.clbits[o["c"]])
    elif o["t"] == "reset":
        qc.reset(qc.qubits[o["q"]])
    else:
        g = o["op"]
        op = qlib.base_gate(g["g"], qlib.params(g))
        if g["c"]:
            op = op.control(len(g["c"]), ctrl_state=qlib.bits(g["s"]))
        qc.append(op.c_if(len(o["c"]), qlib.bits(o["s"])), [qc.qubits[i] for i in g["c"] + g["q"]],
                  [qc.clbits[i] for i in o["c"]])


def snapshot(qc):
    return [(id(i), i.op.name, tuple(i.op.params), tuple(q.identifier for q in i.qubits),
             tuple(b.identifier for b in i.clbits)) for i in qc.data], [q.identifier for q in qc.qubits]


def get_pass(name, n):
    import qrisp
    if name in ("convert_to_cx", "convert_to_cz"):
        return getattr(qrisp, name)()
    if name == "decompose":
        return qrisp.decompose()
    if name == "decompose1":
        return qrisp.decompose(1)
    if name == "decompose_collect":
        return qrisp.decompose(collect_gphases=True)
    if name == "layout_rot":
        return qrisp.manual_layout([(i + 1) % n for i in range(n)])
    if name == "layout_rev":
        return qrisp.manual_layout(list(range(n))[::-1])
    return getattr(qrisp, name)


class P04(Check):
    pid = "P04"
    rule = ("A case is one circuit and pipeline of passes generated by TLC from PassProg.tla with exact unitary columns "
            "or the exact outcome ensemble; non-trivial: at least three instructions.")
    assumptions = ["unitaries compared up to one global phase with tolerance 1e-3, probabilities with 2e-3"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=80, out_const="OutFile")
        ex = dict(Sampling=False, MinN=1, MaxN=2, MaxC=1, MinLen=1, MaxLen=2, Profile="tiny", MaxPyth=0, MaxBranch=8,
                  OutFile="/dev/null")
        out = [dict(module="PassProg", consts=ex, workers=2, invariants=["TotalProbability", "EchoLaw"])]
        base = dict(Sampling=True, MaxPyth=2, MaxBranch=24, MaxC=3)
        out += simulate_jobs("PassProg", dict(base, MinN=1, MaxN=4, MinLen=3, MaxLen=14, Profile="unitary"),
                             5000 * f, 5, SEED, tag="unitary", **kw)
        out += simulate_jobs("PassProg", dict(base, MinN=1, MaxN=4, MinLen=4, MaxLen=12, Profile="meas"),
                             3600 * f, 5, SEED + 1, tag="meas", **kw)
        return out

    def trivial(self, c):
        return len(c["prog"]) < 3

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        from qrisp import QuantumCircuit, PassManager, CircuitPass
        n, m = c["n"], c["m"]
        style = c["_rs"] % 2
        qc = QuantumCircuit(n, m)
        for o in c["prog"]:
            apply_step(qc, o, style)
        before = snapshot(qc)
        pm = PassManager([get_pass(p, n) for p in c["passes"]])
        res = pm.run(qc)
        if snapshot(qc) != before:
            raise Violation("input circuit was modified", repr(c["passes"]))
        sig = "+".join(sorted(set(c["passes"])))
        self.postcondition(c["passes"][-1], res)
        if res.num_qubits() != n or len(res.clbits) != m:
            raise Violation("bits lost: " + sig, "")
        if c["kind"] == "unitary":
            u = res.get_unitary()
            phase = None
            for col in sorted(c["cols"], key=lambda x: x["b"]):
                w = qlib.vec(col, n)
                g = u[:, qlib.rev(col["b"], n)]
                if phase is None:
                    ip = np.vdot(w, g)
                    phase = ip / abs(ip) if abs(ip) > 1e-6 else 1
                if not qlib.close_vec(g, phase * w, 1e-3):
                    raise Violation("unitary changed by " + sig, f"input {col['b']}: {g} / {w}"[:2000])
            if len(c["passes"]) == 1 and not {"arrange_swaps", "cancel_zero_controls"} & set(c["passes"]):
                if not all(ok for _, ok in pm.verify(qc, "unitary", ignore_gphase=True, precision=2)):
                    raise Violation("verify rejects a correct pass: " + sig, "")

                @CircuitPass
                def broken(x):
                    y = x.copy()
                    y.x(y.qubits[n - 1])
                    return y
                if any(ok for _, ok in PassManager([broken]).verify(qc, "unitary", ignore_gphase=True)):
                    raise Violation("verify accepts a wrong pass", "")
        else:
            meas = sorted(c["measured"], reverse=True)
            want = {}
            for b in c["ens"]:
                key = "".join(str(b["cl"][i]) for i in meas)
                want[key] = want.get(key, 0) + qlib.prob(b["p"])
            got = res.run(shots=None)
            if not qlib.close_dist(got, want):
                raise Violation("outcomes changed by " + sig, repr((got, want))[:2000])

    def postcondition(self, p, res):
        names = [i.op.name for i in res.data]
        bad = None
        if p == "convert_to_cx":
            bad = {"cz", "cy", "swap"} & set(names)
        elif p == "convert_to_cz":
            bad = {"cx", "cy", "swap"} & set(names)
        elif p == "resolve_swaps":
            bad = {"swap"} & set(names)
        elif p == "remove_barriers":
            bad = {"barrier"} & set(names)
        elif p in ("decompose", "decompose_collect"):
            bad = {i.op.name for i in res.data if i.op.definition is not None and i.op.definition.data}
            if p == "decompose_collect" and names.count("gphase") > 1:
                bad = {"gphase"}
        elif p == "convert_to_prx":
            from qrisp.circuit import U3Gate
            bad = {i.op.name for i in res.data if isinstance(i.op, U3Gate)} - {"prx", "gphase"}
        if bad:
            raise Violation(f"{p} left {sorted(bad)}", "")


CHECK = P04
