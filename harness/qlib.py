"""Replay helpers shared by the checks: angles, amplitudes, applying
specification operations through the public Qrisp API."""
import cmath
import math

import numpy as np

from common import MachineryError, Violation

W8 = cmath.exp(1j * math.pi / 4)
TH = math.atan2(4, 3)
POW = [W8**i for i in range(4)]


def ang(a):
    return a[0] * math.pi / 4 + a[1] * TH


def ring(c):
    return c[0] + c[1] * POW[1] + c[2] * POW[2] + c[3] * POW[3]


def amps(case, key_v="v"):
    """{basis int: complex} of an emitted state."""
    den = math.sqrt(2) ** case["k"] * 5 ** case["m"]
    return {e[0]: ring(e[1:]) / den for e in case[key_v]}


def vec(case, n=None, big_endian=True):
    """Dense vector; big endian = Qrisp order (first qubit most significant)."""
    n = case["n"] if n is None else n
    out = np.zeros(2**n, dtype=complex)
    for x, a in amps(case).items():
        out[rev(x, n) if big_endian else x] = a
    return out


def rev(x, n):
    r = 0
    for _ in range(n):
        r = (r << 1) | (x & 1)
        x >>= 1
    return r


def prob(p):
    """<<p, q, k, m>> = (p + q sqrt2) / (2^k 25^m)"""
    return (p[0] + p[1] * math.sqrt(2)) / (2 ** p[2] * 25 ** p[3])


def close_vec(a, b, tol=2e-4):
    return a.shape == b.shape and np.max(np.abs(a - b)) < tol


def close_dist(got, want, tol=2e-3):
    for k in set(got) | set(want):
        if abs(got.get(k, 0) - want.get(k, 0)) > tol:
            return False
    return True


FULL = {"p", "gphase", "cp"}


def params(o):
    g, p = o["g"], o["p"]
    if g in FULL:
        return [ang(p[0])]
    if g in ("rx", "ry", "rz", "rxx", "rzz"):
        return [2 * ang(p[0])]
    if g in ("u3", "r", "xxyy"):
        return [2 * ang(p[0])] + [ang(x) for x in p[1:]]
    return []


def base_gate(g, ps):
    from qrisp.circuit import standard_operations as so
    tab = {
        "x": so.XGate, "y": so.YGate, "z": so.ZGate, "h": so.HGate, "s": so.SGate, "t": so.TGate,
        "sx": so.SXGate, "sx_dg": so.SXDGGate, "id": so.IDGate, "p": so.PGate, "rx": so.RXGate, "ry": so.RYGate,
        "rz": so.RZGate, "r": so.RGate, "gphase": so.GPhaseGate, "u3": so.u3Gate, "rxx": so.RXXGate,
        "rzz": so.RZZGate, "xxyy": so.XXYYGate, "swap": so.SwapGate,
    }
    if g == "s_dg":
        return so.SGate().inverse()
    if g == "t_dg":
        return so.TGate().inverse()
    return tab[g](*ps)


def bits(s):
    return "".join(str(b) for b in s)


def cstate(s, pick):
    """A control state in one of its accepted forms: string, integer (bit i
    belongs to control i) or, if all ones, the default."""
    if pick % 3 == 1:
        return {"ctrl_state": sum(b << i for i, b in enumerate(s))}
    if pick % 3 == 2 and all(b == 1 for b in s):
        return {}
    return {"ctrl_state": bits(s)}


def circ_apply(qc, o, qubits=None, style=0):
    """Append a specification operation to a QuantumCircuit."""
    qb = qubits if qubits is not None else qc.qubits
    g, ps = o["g"], params(o)
    t = [qb[i] for i in o["q"]]
    c = [qb[i] for i in o["c"]]
    if g == "barrier":
        qc.barrier(t)
        return
    if not c:
        if g in ("x", "y", "z", "h", "s", "s_dg", "t", "t_dg", "sx", "sx_dg", "id", "p", "gphase", "rx", "ry", "rz",
                 "r", "u3", "swap", "rxx", "rzz", "xxyy"):
            getattr(qc, g)(*ps, *t)
            return
    allone = all(b == 1 for b in o["s"])
    if style == 0 and len(c) == 1 and allone and g in ("x", "y", "z", "p"):
        getattr(qc, "c" + g)(*ps, *c, *t)
        return
    if style == 0 and len(c) == 1 and allone and g == "rx":
        qc.crx(*ps, *c, *t)
        return
    if style == 0 and g == "x" and len(c) == 2 and allone:
        qc.ccx(c[0], c[1], t[0])
        return
    if style == 0 and g == "x" and len(c) >= 2:
        qc.mcx(c, t[0], **cstate(o["s"], len(qc.data)))
        return
    qc.append(base_gate(g, ps).control(len(c), **cstate(o["s"], len(qc.data))), c + t)


def fn_apply(qb, o, style=0):
    """Apply a specification operation with the gate functions on Qubits."""
    import qrisp as q
    g, ps = o["g"], params(o)
    t = [qb[i] for i in o["q"]]
    c = [qb[i] for i in o["c"]]
    if g == "barrier":
        q.barrier(t)
        return
    if not c:
        if g in ("x", "y", "z", "h", "s", "s_dg", "t", "t_dg", "sx", "sx_dg", "id"):
            getattr(q, g)(*t)
        elif g in ("p", "gphase", "rx", "ry", "rz", "rxx", "rzz", "xxyy", "u3"):
            getattr(q, g)(*ps, *t)
        elif g == "r":
            t[0].qs().append(base_gate(g, ps), t)
        elif g == "swap":
            q.swap(*t)
        else:
            raise MachineryError("gate " + g)
        return
    s = bits(o["s"])
    allone = "0" not in s
    if style == 0 and g == "x":
        if len(c) == 1 and allone:
            q.cx(c[0], t[0])
        else:
            q.mcx(c, t[0], ctrl_state=s)
        return
    if style == 0 and g == "z":
        if len(c) == 1 and allone:
            q.cz(c[0], t[0])
        else:
            q.mcz(c + t, ctrl_state=s + "1")
        return
    if style == 0 and g == "p":
        if len(c) == 1 and allone:
            q.cp(ps[0], c[0], t[0])
        else:
            q.mcp(ps[0], c + t, ctrl_state=s + "1")
        return
    if style == 0 and g == "y" and len(c) == 1 and allone:
        q.cy(c[0], t[0])
        return
    if style == 0 and g == "rz" and len(c) == 1 and allone:
        q.crz(ps[0], c[0], t[0])
        return
    with q.control(c, ctrl_state=s):
        fn_apply(qb, dict(o, c=[], s=[]), style)


def warm():
    """Import the implementation and compile the numba kernels once."""
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        _warm()


def _warm():
    from qrisp import QuantumCircuit
    qc = QuantumCircuit(3, 3)
    qc.h(0)
    qc.cx(0, 1)
    qc.rx(0.3, 2)
    qc.ccx(0, 1, 2)
    qc.statevector_array()
    qc.get_unitary()
    qc.measure(qc.qubits, qc.clbits)
    qc.run()
