"""Replay of superposed value tables (Val.tla)."""
import cmath
import math

import numpy as np

from common import Violation
from measure import distribution

SCALE = 8


def prepare(init, regs):
    """Apply the preparation of an emitted table to the registers (lists of qubits)."""
    import qrisp as q
    qb = [b for r in regs for b in r]
    for j, b in enumerate(init["base"]):
        if b and j + 1 not in init["sup"]:
            q.x(qb[j])
    for j, ph in zip(init["sup"], init["ph"]):
        q.h(qb[j - 1])
        if ph:
            q.p(ph * math.pi / 4, qb[j - 1])


def read(bits, exponent, signed):
    """Scaled value of a bit list (least significant first) in a fixed point format."""
    x = sum(b << i for i, b in enumerate(bits))
    if signed and bits and bits[-1]:
        x -= 1 << len(bits)
    e = int(exponent) + SCALE
    return x << e if e >= 0 else x / 2 ** -e


def observe(qc, regs, limit=19):
    """{tuple of bit tuples: amplitude or None}, probability of each; helper qubits have to be |0>.  None for circuits
    too large for a statevector, where only probabilities are available."""
    names = {b.identifier: i for i, b in enumerate(qc.qubits)}
    n = len(names)
    used = [b for r in regs for b in r]
    if n > limit or qc.clbits:
        out = {}
        for k, p in distribution(qc, used).items():
            if p < 1e-5:
                continue
            t, i = [], 0
            for r in regs:
                t.append(tuple(int(x) for x in k[i:i + len(r)]))
                i += len(r)
            out[tuple(t)] = (None, p)
        return out
    vec = np.asarray(qc.statevector_array())
    mask = 0
    pos = []
    for r in regs:
        pos.append([n - 1 - names[b.identifier] if b.identifier in names else None for b in r])
        for s in pos[-1]:
            if s is not None:
                mask |= 1 << s
    out = {}
    for y in np.nonzero(np.abs(vec) > 2e-3)[0]:
        y = int(y)
        if y & ~mask:
            raise Violation("helper qubits left dirty", f"basis {y:0{n}b} amplitude {vec[y]} qubits {list(names)}")
        t = tuple(tuple((y >> s) & 1 if s is not None else 0 for s in ps) for ps in pos)
        out[t] = (complex(vec[y]), abs(vec[y]) ** 2)
    return out


def match(got, branches, reader, what, accept=None):
    """Compare observed patterns with the branches of the table.  reader turns bit patterns into values; accept(want,
    values) decides a branch (equality by default)."""
    if abs(sum(p for _, p in got.values()) - 1) > 2e-2:
        raise Violation(f"{what}: additional branches", f"weight {sum(p for _, p in got.values())}")
    rows = [(reader(k), a, p) for k, (a, p) in got.items()]
    left = list(branches)
    phase = None
    w = 1 / len(branches)
    for vals, a, p in rows:
        hit = next((b for b in left if (accept(b["v"], vals) if accept else list(vals) == b["v"])), None)
        if hit is None:
            near = min(branches, key=lambda b: sum(x != y for x, y in zip(vals, b["v"])))
            raise Violation(f"{what}: wrong values", f"{list(vals)} (probability {p}), closest expected {near['v']}; expected {[b['v'] for b in branches][:8]}")
        left.remove(hit)
        if abs(p - w) > 5e-3:
            raise Violation(f"{what}: wrong weight", f"{list(vals)} has probability {p} instead of {w}")
        if a is not None:
            r = a / (cmath.exp(1j * math.pi / 4 * hit["ph"]) * math.sqrt(w))
            if phase is None:
                phase = r
            elif abs(r - phase) > 2e-2:
                raise Violation(f"{what}: wrong phase", f"{list(vals)} has relative phase {r / phase}")
    if left:
        raise Violation(f"{what}: missing branches", f"{left[:4]}")


def xbasis(qc, regs, branches, encode, what):
    """Compare the distribution of all register qubits after a Hadamard on each with the one of the table; sees the
    relative phases of a circuit that contains measurements.  encode turns the values of a branch into bit patterns."""
    qb = [b for r in regs for b in r]
    n = len(qb)
    vec = np.zeros(2 ** n, complex)
    for b in branches:
        bits = [x for r in encode(b["v"]) for x in r]
        vec[sum(x << i for i, x in enumerate(bits))] = cmath.exp(1j * math.pi / 4 * b["ph"]) / math.sqrt(len(branches))
    vec = vec.reshape((2,) * n)
    for ax in range(n):
        a, b = np.take(vec, 0, ax), np.take(vec, 1, ax)
        vec = np.stack([a + b, a - b], ax) / math.sqrt(2)
    want = np.abs(vec.reshape(-1)) ** 2
    qc = qc.copy()
    names = {b.identifier: b for b in qc.qubits}
    for b in qb:
        if b.identifier in names:
            qc.h(names[b.identifier])
    got = np.zeros(2 ** n)
    for k, p in distribution(qc, qb).items():
        got[sum(int(x) << i for i, x in enumerate(k))] += p
    if all(b.identifier in names for b in qb) and np.max(np.abs(got - want)) > 4e-3:
        y = int(np.argmax(np.abs(got - want)))
        raise Violation(f"{what}: wrong phases", f"X basis outcome {y:0{n}b} has probability {got[y]} instead of {want[y]}")
