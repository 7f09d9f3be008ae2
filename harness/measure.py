"""Outcome distribution of chosen qubits of a circuit."""


def distribution(qc, qubits, recs=()):
    """Joint distribution of the classical bits recs and a final measurement of the qubits, as strings in that order.
    Qubits that are not part of the circuit are |0>."""
    names = [b.identifier for b in qc.qubits]
    front = [qc.clbits.index(cb) for cb in recs]
    qc = qc.copy()
    for b in qubits:
        if b.identifier in names:
            qc.measure(qc.qubits[names.index(b.identifier)], qc.add_clbit())
    res = qc.run(shots=None)
    idx = [i for i, b in enumerate(qubits) if b.identifier in names]
    out = {}
    for k, p in res.items():
        k = k.replace(" ", "")[::-1]  # outcome strings list the measured bits, highest first
        head = "".join(k[i] for i in front)
        k = k[len(k) - len(idx):]
        s = ["0"] * len(qubits)
        for j, i in enumerate(idx):
            s[i] = k[j]
        s = head + "".join(s)
        out[s] = out.get(s, 0) + p
    return out
