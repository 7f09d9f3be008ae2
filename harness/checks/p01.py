"""P01: the simulator implements the exact semantics of every gate program."""
import numpy as np

import qlib
from common import Check, Violation, SEED, TIER, simulate_jobs


class P01(Check):
    pid = "P01"
    rule = ("A case is one gate program built step by step by TLC from GateProg.tla with its exact final state over "
            "Z[w8][1/sqrt2,1/5]; non-trivial: at least three operations and more than one reachable amplitude or an "
            "entangling/controlled operation.")
    assumptions = ["amplitudes compared with tolerance 2e-4 (the simulator works in complex64)",
                   "TLC and the hand-written gate matrices of QSem.tla"]

    def specs(self):
        q = TIER != "thorough"
        f = 1 if q else 8
        base = dict(Sampling=True, MaxPyth=3, MaxH=99)
        kw = dict(depth=80, out_const="OutFile")
        ex = dict(Sampling=False, MinN=1, MaxN=2, MinLen=1, MaxLen=2, Profile="tiny", MaxPyth=1, MaxH=9)
        if not q:
            ex["MaxN"] = 3
        out = [dict(module="GateProg", consts=dict(ex, OutFile="/dev/null"),
                    invariants=["Unitary", "Reversible", "Commuting", "CtrlOff", "CtrlOn1"], heap="4g", workers=2)]
        out += simulate_jobs("GateProg", dict(base, MinN=1, MaxN=6, MinLen=3, MaxLen=14, Profile="mixed"),
                             900 * f, 2, SEED, tag="mixed", **kw)
        out += simulate_jobs("GateProg", dict(base, MinN=2, MaxN=5, MinLen=2, MaxLen=8, Profile="ctrl"),
                             500 * f, 1, SEED + 1, tag="ctrl", **kw)
        out += simulate_jobs("GateProg", dict(base, MinN=8, MaxN=11, MinLen=15, MaxLen=40, Profile="wide", MaxH=7),
                             260 * f, 2, SEED + 2, tag="wide", **kw)
        out += simulate_jobs("GateProg", dict(base, MinN=14, MaxN=28, MinLen=20, MaxLen=60, Profile="wide", MaxH=6),
                             120 * f, 1, SEED + 3, tag="huge", **kw)
        out += simulate_jobs("GateProg", dict(base, MinN=2, MaxN=6, MinLen=5, MaxLen=25, Profile="clifford"),
                             200 * f, 1, SEED + 4, tag="clifford", **kw)
        return out

    def trivial(self, c):
        return len(c["prog"]) < 3 or (len(c["v"]) == 1 and not any(o["c"] for o in c["prog"]))

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        from qrisp import QuantumCircuit, QuantumVariable
        n = c["n"]
        style = c["_rs"] % 2

        def build():
            qc = QuantumCircuit(n)
            for o in c["prog"]:
                qlib.circ_apply(qc, o, style=style)
            return qc

        want = qlib.amps(c)
        qc = build()
        if n <= 12:
            w = qlib.vec(c)
            got = qc.statevector_array()
            if not qlib.close_vec(got, w):
                raise Violation("statevector", repr((got, w))[:2500])
        if n <= 5:
            u = qc.get_unitary()
            if u.shape != (2**n, 2**n) or not qlib.close_vec(u[:, 0], w):
                raise Violation("unitary column", repr((u[:, 0], w))[:2500])
            if np.max(np.abs(u.conj().T @ u - np.eye(2**n))) > 2e-4:
                raise Violation("not unitary", "")
        # outcome distribution of a full measurement
        dist = {format(qlib.rev(x, n), f"0{n}b")[::-1]: abs(a) ** 2 for x, a in want.items()}
        mq = build()
        mq.measure(mq.qubits)
        got = mq.run(shots=None)
        if not qlib.close_dist(got, dist):
            raise Violation("outcome distribution", repr((got, dist))[:2500])
        shots = 200
        got = mq.run(shots=shots)
        if sum(got.values()) != shots:
            raise Violation("shot total", repr(got)[:500])
        if any(dist.get(k, 0) < 1e-6 and v > 0 for k, v in got.items()):
            raise Violation("sampled an impossible outcome", repr((got, dist))[:2500])
        if c["tag"] in ("mixed", "ctrl", "clifford"):
            # the same program through gate functions on a variable
            qv = QuantumVariable(n)
            for o in c["prog"]:
                qlib.fn_apply(list(qv), o, style=style)
            f = qv.qs.statevector("function")
            m = qv.get_measurement()
            for x in range(2**n):
                s = format(qlib.rev(x, n), f"0{n}b")
                if abs(complex(f({qv: s})) - want.get(x, 0)) > 2e-4:
                    raise Violation("session statevector", s)
            d2 = {format(qlib.rev(x, n), f"0{n}b"): abs(a) ** 2 for x, a in want.items()}
            if not qlib.close_dist(m, d2):
                raise Violation("get_measurement", repr((m, d2))[:2000])


CHECK = P01
