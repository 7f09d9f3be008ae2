"""P05: converted circuits do what the circuit does."""
import numpy as np

import qlib
from common import Check, Violation, SEED, TIER, simulate_jobs

TARGETS = ("qiskit", "qasm2", "cirq", "pennylane", "pytket", "stim")


def build(c):
    from qrisp import QuantumCircuit
    style = c["_rs"] % 2
    qc = QuantumCircuit(c["n"], c["m"])
    for o in c["prog"]:
        if o["t"] == "gate":
            qlib.circ_apply(qc, o["op"], style=style)
        elif o["t"] == "block":
            used = sorted({i for g in o["src"] for i in g["q"] + g["c"]})
            sub = QuantumCircuit(len(used))
            ren = {q: sub.qubits[i] for i, q in enumerate(used)}
            for g in o["src"]:
                qlib.circ_apply(sub, g, qubits=ren, style=style)
            op = sub.to_gate()
            if o["inv"]:
                op = op.inverse()
            if o["c"]:
                op = op.control(len(o["c"]), ctrl_state=qlib.bits(o["s"]))
            qc.append(op, [qc.qubits[i] for i in o["c"] + used])
        elif o["t"] == "measure":
            qc.measure(qc.qubits[o["q"]], qc.clbits[o["c"]])
        elif o["t"] == "reset":
            qc.reset(qc.qubits[o["q"]])
        else:
            g = o["op"]
            op = qlib.base_gate(g["g"], qlib.params(g))
            if g["c"]:
                op = op.control(len(g["c"]), ctrl_state=qlib.bits(g["s"]))
            qc.append(op.c_if(len(o["c"]), **qlib.cstate(o["s"], len(qc.data))), [qc.qubits[i] for i in g["c"] + g["q"]],
                      [qc.clbits[i] for i in o["c"]])
    return qc


class Runner:
    """All branches of a program given as unitaries, measurements, resets and
    conditions; qubit 0 is the most significant position of the vectors."""

    def __init__(self, n, mat=None):
        self.n = n
        self.br = [({}, np.eye(2**n, dtype=complex)[:, :1] if mat is None else mat)]

    def apply(self, u, qubits, cond=None):
        k = len(qubits)
        for i, (cl, v) in enumerate(self.br):
            if cond is not None and not cond(cl):
                continue
            w = v.reshape([2] * self.n + [-1])
            w = np.tensordot(np.asarray(u).reshape([2] * (2 * k)), w, axes=(list(range(k, 2 * k)), list(qubits)))
            w = np.moveaxis(w, list(range(k)), list(qubits))
            self.br[i] = (cl, w.reshape(2**self.n, -1))

    def _part(self, v, q, b):
        w = v.reshape([2] * self.n + [-1]).copy()
        w[(slice(None),) * q + (1 - b,)] = 0
        return w.reshape(2**self.n, -1)

    def measure(self, q, key):
        new = []
        for cl, v in self.br:
            for b in (0, 1):
                w = self._part(v, q, b)
                if np.linalg.norm(w) > 1e-7:
                    new.append((dict(cl, **{key: b}) if isinstance(key, str) else {**cl, key: b}, w))
        self.br = new

    def reset(self, q):
        new = []
        for cl, v in self.br:
            for b in (0, 1):
                w = self._part(v, q, b)
                if np.linalg.norm(w) > 1e-7:
                    if b:
                        w = np.flip(w.reshape([2] * self.n + [-1]), q).reshape(2**self.n, -1)
                    new.append((cl, w))
        self.br = new

    def dist(self, keys):
        out = {}
        for cl, v in self.br:
            k = "".join(str(cl.get(x, 0)) for x in keys)
            out[k] = out.get(k, 0) + float(np.sum(np.abs(v) ** 2))
        return out


def run_qiskit(circ, n, mat=None):
    """Interprets a Qiskit circuit by its own gate matrices."""
    from qiskit.quantum_info import Operator
    r = Runner(n, mat)

    def go(qc, qmap, cmap, cond):
        for ins in qc.data:
            op = ins.operation
            q = [qmap[b] for b in ins.qubits]
            cl = [cmap[b] for b in ins.clbits]
            if op.name == "barrier":
                continue
            if op.name == "measure":
                r.measure(q[0], cl[0])
            elif op.name == "reset":
                r.reset(q[0])
            elif op.name == "if_else":
                bit, val = op.condition
                bs = [cmap[bit]] if bit in cmap else [cmap[b] for b in bit]
                val = int(val)

                def cond2(d, bs=bs, val=val, cond=cond):
                    return (cond is None or cond(d)) and sum(d.get(b, 0) << i for i, b in enumerate(bs)) == val
                body = op.blocks[0]
                go(body, dict(zip(body.qubits, q)), dict(zip(body.clbits, cl)), cond2)
            else:
                try:
                    u = Operator(op).data
                except Exception:
                    d = op.definition
                    go(d, dict(zip(d.qubits, q)), dict(zip(d.clbits, cl)), cond)
                    continue
                r.apply(u, q[::-1], cond)
        if qc.global_phase:
            r.apply(np.array([[np.exp(1j * float(qc.global_phase)), 0], [0, np.exp(1j * float(qc.global_phase))]]), [0], cond)
    go(circ, {b: i for i, b in enumerate(circ.qubits)}, {b: i for i, b in enumerate(circ.clbits)}, None)
    return r


def run_cirq(circ, n, mat=None):
    import cirq
    r = Runner(n, mat)
    count = {}
    for op in circ.all_operations():
        q = [x.x for x in op.qubits]
        if isinstance(op.gate, cirq.MeasurementGate):
            inv = op.gate.full_invert_mask()
            for x, i in zip(q, inv):
                assert not i
                count[x] = count.get(x, 0) + 1
                r.measure(x, (x, count[x]))
        elif isinstance(op.gate, cirq.ResetChannel):
            r.reset(q[0])
        elif not q:
            ph = complex(cirq.unitary(op)[0, 0])
            r.apply(np.eye(2) * ph, [0])
        else:
            r.apply(cirq.unitary(op), q)
    return r


def run_tket(circ, n, mat=None):
    from pytket import OpType
    from pytket.passes import DecomposeBoxes
    circ = circ.copy()
    DecomposeBoxes().apply(circ)
    r = Runner(n, mat)
    for cmd in circ.get_commands():
        q = [x.index[0] for x in cmd.qubits]
        if cmd.op.type == OpType.Barrier:
            continue
        if cmd.op.type == OpType.Measure:
            r.measure(q[0], cmd.bits[0].index[0])
        elif cmd.op.type == OpType.Reset:
            r.reset(q[0])
        else:
            r.apply(cmd.op.get_unitary(), q)
    return r


def run_stim(circ, mmap, qc, measured):
    """All branches of a Stim circuit by peeking and postselecting."""
    import stim
    br = [(1.0, [], stim.TableauSimulator())]
    for ins in circ.flattened():
        name = ins.name
        if name in ("TICK", "QUBIT_COORDS", "DETECTOR", "OBSERVABLE_INCLUDE"):
            continue
        new = []
        for p, rec, sim in br:
            if name in ("M", "R"):
                stack = [(p, rec, sim)]
                for t in ins.targets_copy():
                    nxt = []
                    for p1, r1, s1 in stack:
                        z = s1.peek_z(t.value)
                        for b in (0, 1):
                            if z and b != (z == -1):
                                continue
                            s2 = s1.copy()
                            s2.postselect_z(t.value, desired_value=bool(b))
                            if name == "R" and b:
                                s2.x(t.value)
                            nxt.append((p1 * (1 if z else 0.5), r1 + [b] if name == "M" else r1, s2))
                    stack = nxt
                new += stack
            else:
                ts = ins.targets_copy()
                if any(t.is_measurement_record_target for t in ts):
                    for a, b in zip(ts[::2], ts[1::2]):
                        if not a.is_measurement_record_target:
                            sim.do(stim.CircuitInstruction(name, [a, b]))
                        elif rec[a.value]:
                            getattr(sim, name[1:].lower())(b.value)
                else:
                    sim.do(ins)
                new.append((p, rec, sim))
        br = new
    out = {}
    for p, rec, _ in br:
        k = "".join(str(rec[mmap[qc.clbits[i]]]) for i in measured)
        out[k] = out.get(k, 0) + p
    return out


class P05(Check):
    pid = "P05"
    rule = ("A case is one circuit generated by TLC from ConvProg.tla for one conversion target with exact unitary "
            "columns or outcome ensemble; the converted program is interpreted with the target library's own gate "
            "matrices (Stim: its tableau simulator); non-trivial: at least three instructions.")
    assumptions = ["gate matrices of Qiskit, Cirq, PennyLane, pytket and Stim's tableau simulator are right",
                   "refusals (NotImplementedError, ValueError naming an unsupported gate) count as skipped"]
    method = "fork"

    def specs(self):
        f = 1 if TIER != "thorough" else 6
        kw = dict(depth=80, out_const="OutFile")
        ex = dict(Sampling=False, MinN=1, MaxN=2, MaxC=1, MinLen=1, MaxLen=2, Target="qiskit", Profile="tiny", MaxPyth=0,
                  MaxBranch=8, OutFile="/dev/null")
        out = [dict(module="ConvProg", consts=ex, workers=2, invariants=["TotalProbability"])]
        base = dict(Sampling=True, MaxPyth=2, MaxBranch=24, MaxC=4, MinN=1, MaxN=4, MinLen=2, MaxLen=9)
        seed = SEED
        for t, prof, cnt in (("qiskit", "unitary", 1000), ("qiskit", "flow", 500), ("qasm2", "unitary", 260),
                             ("qasm2", "meas", 150), ("cirq", "unitary", 900), ("cirq", "meas", 300),
                             ("pennylane", "unitary", 700), ("pytket", "unitary", 700), ("pytket", "meas", 250),
                             ("stim", "meas", 500), ("stim", "flow", 500)):
            seed += 1
            out += simulate_jobs("ConvProg", dict(base, Target=t, Profile=prof), cnt * f, 1, seed, tag=t + "/" + prof, **kw)
        return out

    def trivial(self, c):
        return len(c["prog"]) < 3

    def prepare(self):
        qlib.warm()
        import cirq  # noqa
        import pennylane  # noqa
        import pytket  # noqa
        import qiskit  # noqa
        import stim  # noqa

    def refused(self, c, e):
        if c["must"]:
            raise Violation(c["target"] + " converter refuses a circuit of its gate set", str(e)[:500])

    def compare_u(self, c, u, what):
        n, phase = c["n"], None
        for col in sorted(c["cols"], key=lambda x: x["b"]):
            w = qlib.vec(col, n)
            g = u[:, qlib.rev(col["b"], n)]
            if phase is None:
                ip = np.vdot(w, g)
                phase = ip / abs(ip) if abs(ip) > 1e-6 else 1
            if not qlib.close_vec(g, phase * w, 1e-3):
                raise Violation(what + " has another unitary", f"input {col['b']}: {g} / {w}"[:2000])

    def want(self, c, order):
        out = {}
        for b in c["ens"]:
            k = "".join(str(b["cl"][i]) for i in order)
            out[k] = out.get(k, 0) + qlib.prob(b["p"])
        return out

    def compare_d(self, got, want, what):
        if not qlib.close_dist(got, want):
            raise Violation(what + " has other outcomes", repr((got, want))[:2000])

    def execute(self, c):
        from qrisp import QuantumCircuit
        n, t = c["n"], c["target"]
        qc = build(c)
        eye = np.eye(2**n, dtype=complex) if c["kind"] == "unitary" else None
        meas = sorted(c.get("measured", []), reverse=True)
        try:
            conv = {"qiskit": qc.to_qiskit, "qasm2": qc.to_qasm2, "cirq": qc.to_cirq, "pennylane": qc.to_pennylane,
                    "pytket": qc.to_pytket, "stim": lambda: qc.to_stim(return_measurement_map=True)}[t]()
        except Exception as e:
            if any(x in str(e) for x in ("support", "could not be decomposed", "Could not convert operation")):
                return self.refused(c, e)
            raise
        if t in ("qiskit", "qasm2"):
            if t == "qasm2":
                from qiskit import QuantumCircuit as QK
                text, conv = conv, QK.from_qasm_str(conv)
            r = run_qiskit(conv, n, eye)
            back = QuantumCircuit.from_qiskit(conv) if t == "qiskit" else QuantumCircuit.from_qasm_str(text)
        elif t == "cirq":
            r = run_cirq(conv, n, eye)
            back = QuantumCircuit.from_cirq(conv) if len(conv.all_qubits()) == n else None
        elif t == "pennylane":
            import pennylane as qml
            try:
                with qml.queuing.AnnotatedQueue() as q:
                    conv(wires=list(range(n)))
            except NotImplementedError as e:
                return self.refused(c, e)
            r = Runner(n, eye)
            for op in qml.tape.QuantumScript.from_queue(q).operations:
                if len(op.wires) == 0:
                    continue
                r.apply(qml.matrix(op), list(op.wires))
            back = None
        elif t == "pytket":
            r = run_tket(conv, n, eye)
            back = None
        else:
            circ, mmap = conv
            self.compare_d(run_stim(circ, mmap, qc, meas), self.want(c, meas), "stim circuit")
            return None
        if c["kind"] == "unitary":
            self.compare_u(c, r.br[0][1], t + " circuit")
            if back is not None:
                self.compare_u(c, back.get_unitary(), "circuit imported from " + t)
        elif t == "cirq":
            seen, keys = {}, {}
            for o in c["prog"]:
                if o["t"] == "measure":
                    seen[o["q"]] = seen.get(o["q"], 0) + 1
                    keys[o["c"]] = (o["q"], seen[o["q"]])
            self.compare_d(r.dist([keys[i] for i in meas]), self.want(c, meas), "cirq circuit")
        else:
            self.compare_d(r.dist(meas), self.want(c, meas), t + " circuit")
            if back is not None:
                self.compare_d(back.run(shots=None), self.want(c, meas), "circuit imported from " + t)
        return None


CHECK = P05
