"""P23: measured expectation values equal the exact expectation value."""
import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs


def exact_backend():
    from qrisp.interface import VirtualBackend
    from qrisp.simulator import run as simulate
    import qrisp as q
    from qrisp.interface import Backend

    class Exact(VirtualBackend):
        """Counts proportional to the exact outcome probabilities."""

        def __init__(self):
            super().__init__(lambda *a: None)

        def run(self, circuits, shots=None):
            if shots is not None and shots < 1:
                raise Violation("expectation value requests no shots", str(shots))
            one = isinstance(circuits, q.QuantumCircuit)
            out = [dict(simulate(c, None, "")) for c in ([circuits] if one else circuits)]
            return out[0] if one else out
    return Exact()


class P23(Check):
    pid = "P23"
    method = "spawn"
    rule = ("A case is a gate program, an operator and a grouping method, generated by TLC from ExpVal.tla with the exact expectation value; "
            "non-trivial: more than one term or a ladder or projector factor.")
    assumptions = ["outcome probabilities from the exact simulator, so no sampling error; sampled runs of the traced version compared within eight times the requested precision"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        ex = dict(Sampling=False, MaxN=1, MaxTerms=1, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="ExpVal", consts=ex, workers=2, invariants=["Real"])]
        kw = dict(depth=60, out_const="OutFile")
        out += simulate_jobs("ExpVal", dict(Sampling=True, MaxN=4, MaxTerms=5, Profile="mixed"), 600 * f, 2, SEED, tag="mixed", **kw)
        out += simulate_jobs("ExpVal", dict(Sampling=True, MaxN=4, MaxTerms=7, Profile="pauli"), 700 * f, 1, SEED + 1, tag="pauli", **kw)
        out += simulate_jobs("ExpVal", dict(Sampling=True, MaxN=3, MaxTerms=4, Profile="complex"), 300 * f, 1, SEED + 2, tag="complex", **kw)
        out += simulate_jobs("ExpVal", dict(Sampling=True, MaxN=2, MaxTerms=3, Profile="mixed"), 16 * f, 1, SEED + 3, tag="traced", **kw)
        return out

    def trivial(self, c):
        return len(c["hs"]) == 1 and all(f in "IXYZ" for f in c["hs"][0]["fs"])

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        from qrisp.operators.qubit import QubitOperator
        from qrisp.operators.qubit.qubit_term import QubitTerm
        n, rs = c["n"], c["_rs"]
        want = (qlib.ring(c["val"]) / (2 ** c["k"] * 25 ** c["m"])).real
        H = QubitOperator({QubitTerm({i: f for i, f in enumerate(h["fs"]) if f != "I"}): complex(*h["c"]) if h["c"][1] else h["c"][0] for h in c["hs"]})

        def prep():
            qv = q.QuantumVariable(n)
            for o in c["prog"]:
                qlib.fn_apply([qv[i] for i in range(n)], o)
            return qv
        for method in ("commuting_qw", "commuting"):
            if c["tag"] == "traced":
                prec = 0.06
                got = float(q.jaspify(lambda: H.expectation_value(prep, precision=prec, diagonalisation_method=method)())())
                tol = 8 * prec
            else:
                got = complex(H.expectation_value(prep, precision=0.01, diagonalisation_method=method, backend=exact_backend())())
                tol = 1e-3
            if abs(got - want) > tol:
                raise Violation(f"expectation value ({method})", f"{got} instead of {want}: {H}")


CHECK = P23
