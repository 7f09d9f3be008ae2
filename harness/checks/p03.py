"""P03: circuit transformations preserve meaning."""
import numpy as np

import qlib
from common import Check, Violation, SEED, TIER, simulate_jobs


class P03(Check):
    pid = "P03"
    rule = ("A case is one history of circuit transformations generated by TLC from TransProg.tla, ending with several "
            "circuits of which up to three unitary columns are known exactly; non-trivial: some circuit denotes at least "
            "two gates and the history contains a transformation.")
    assumptions = ["amplitudes compared with tolerance 5e-4"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        kw = dict(depth=80, out_const="OutFile")
        ex = dict(Sampling=False, MinN=1, MaxN=2, MinLen=3 if f == 1 else 4, MaxLen=4, MaxFlat=4, MaxCirc=2,
                  Profile="tiny", MaxPyth=0, OutFile="/dev/null")
        out = [dict(module="TransProg", consts=ex, workers=2, invariants=["Norms", "InverseUndoes", "Laws"])]
        base = dict(Sampling=True, MinN=1, MaxN=4, MaxPyth=3, Profile="mixed", MaxCirc=6)
        out += simulate_jobs("TransProg", dict(base, MinLen=6, MaxLen=22, MaxFlat=14), 1800 * f, 7, SEED, tag="mixed", **kw)
        return out

    def trivial(self, c):
        return max(c["flat"]) < 2 or all(k["t"] in ("new", "gate", "sym") for k in c["cmds"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import sympy
        from qrisp import QuantumCircuit
        syms = sympy.symbols("alpha beta")
        subs = {s: qlib.ang(v) for s, v in zip(syms, c["vals"])}
        more = sympy.symbols("gamma delta")
        rename = {syms[0]: -more[0], syms[1]: more[1] + 0.5, more[0]: more[0], more[1]: more[1]}
        subs.update({more[0]: -subs[syms[0]], more[1]: subs[syms[1]] - 0.5})
        pool = []
        for pos, k in enumerate(c["cmds"]):
            t = k["t"]
            if t == "new":
                pool.append(QuantumCircuit(k["n"]))
                continue
            qc = pool[k["i"] - 1]
            if t == "gate":
                qlib.circ_apply(qc, k["op"], style=(c["_rs"] + pos) % 2)
            elif t == "sym":
                sym_apply(qc, k["op"], syms[k["y"] - 1], subs, (c["_rs"] + pos) % 2)
            elif t == "copy":
                pool.append(qc.copy())
            elif t == "inverse":
                pool.append(qc.inverse())
            elif t == "transpile":
                pool.append(qc.transpile(k["d"]) if k["d"] < 4 else qc.transpile())
            elif t in ("bind", "rename"):
                pool.append(qc.bind_parameters(subs if t == "bind" else rename))
            elif t == "insert":
                op = pool[k["j"] - 1].to_gate()
                for j, m in enumerate(k["mods"]):
                    if (c["_rs"] + pos + j) % 4 == 0 and op.num_qubits <= 2:
                        op.get_unitary()  # must not leave anything behind
                    if m["t"] == "inv":
                        op = op.inverse()
                    elif m["t"] == "ctrl":
                        op = op.control(len(m["s"]), ctrl_state=qlib.bits(m["s"]))
                    elif m["t"] == "copy":
                        op = op.copy()
                    elif m["t"] == "rename" and len(op.abstract_params):
                        op = op.bind_parameters(rename)
                    elif m["t"] == "bind" and len(op.abstract_params):
                        op = op.bind_parameters(subs)
                        if (c["_rs"] + pos) % 3 == 0:
                            op = op.bind_parameters(subs)
                qc.append(op, [qc.qubits[i] for i in k["q"]])
            elif t == "extend":
                src = pool[k["j"] - 1]
                qc.extend(src, {a: qc.qubits[i] for a, i in zip(src.qubits, k["q"])})
            elif t == "compose":
                src = pool[k["j"] - 1]
                if (c["_rs"] + pos) % 2:
                    qc.compose(src, [qc.qubits[i] for i in k["q"]])
                else:
                    pool[k["i"] - 1] = qc.compose(src, [qc.qubits[i] for i in k["q"]], inplace=False)
        symbolic = any(k["t"] == "sym" for k in c["cmds"])
        for num, (qc, want) in enumerate(zip(pool, c["circs"])):
            n = want["n"]
            if qc.num_qubits() != n:
                raise Violation("qubit count", f"circuit {num}: {qc.num_qubits()} instead of {n}")
            if symbolic:
                qc = qc.bind_parameters(subs)
                if c["_rs"] % 3 == 0:
                    qc = qc.bind_parameters(subs)
            u = qc.get_unitary()
            if u.dtype == object:
                try:
                    u = np.array(u, dtype=complex)
                except TypeError:
                    raise Violation("symbol left after binding", f"circuit {num}: {u}"[:1500])
            if u.shape != (2**n, 2**n):
                raise Violation("unitary shape", repr(u.shape))
            for col in want["cols"]:
                w = qlib.vec(col, n)
                g = u[:, qlib.rev(col["b"], n)]
                if not qlib.close_vec(g, w, 5e-4):
                    raise Violation("unitary column", f"circuit {num} input {col['b']}: " + repr((g, w))[:2000])
                if col["b"] == 0:
                    g = qc.statevector_array() if qc.data else None
                    if g is not None and not qlib.close_vec(g, w, 5e-4):
                        raise Violation("statevector", f"circuit {num}: " + repr((g, w))[:2000])


def sym_apply(qc, o, sym, subs, style):
    """The operation with its (first) angle written as an expression of a symbol."""
    g = o["g"]
    e = sym if g in qlib.FULL else 2 * sym
    if style:
        e = e + 0.25 - 0.5 * 0.5
    t = [qc.qubits[i] for i in o["q"]]
    if o["c"]:
        cq = [qc.qubits[i] for i in o["c"]]
        (qc.cp if g == "p" else qc.crx)(e, *cq, *t)
        return
    rest = [qlib.ang(x) for x in o["p"][1:]]
    getattr(qc, g)(e, *rest, *t)


CHECK = P03
