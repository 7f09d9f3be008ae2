"""P27: parity and detector annotations."""
import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs


class P27(Check):
    pid = "P27"
    method = "spawn"
    rule = ("A case is a Clifford program with measurements, resets, conditioned gates, certain errors and parity annotations generated by TLC from ParityProg.tla with the set of all "
            "measurement records; replayed as a circuit and as a traced function through the stabiliser export, and run directly; non-trivial: at least one annotation.")
    assumptions = ["supports of records compared after 40 samples per record (records of Clifford programs are equally likely)"]
    limit = 240

    def specs(self):
        f = 1 if TIER != "thorough" else 6
        ex = dict(Sampling=False, MaxN=2, MaxM=2, MinLen=1, MaxLen=4, Profile="tiny", OutFile="/dev/null")
        out = [dict(module="ParityProg", consts=ex, workers=2, invariants=["TotalOne", "Affine"])]
        kw = dict(depth=60, out_const="OutFile")
        out += simulate_jobs("ParityProg", dict(Sampling=True, MaxN=4, MaxM=5, MinLen=6, MaxLen=18, Profile="mixed"), 500 * f, 2, SEED, tag="mixed", **kw)
        out += simulate_jobs("ParityProg", dict(Sampling=True, MaxN=3, MaxM=5, MinLen=5, MaxLen=14, Profile="noise"), 200 * f, 1, SEED + 9, tag="noise", **kw)
        return out

    def trivial(self, c):
        return not c["pars"]

    def prepare(self):
        qlib.warm()
        import stim  # noqa: F401

    def stim_ok(self, c, circ, mpos, dets, obss, what):
        """mpos: position of bit i in the record of the exported circuit; dets, obss: index of annotation i."""
        import numpy as np
        recs = {tuple(r) for r in c["recs"]}
        if circ.num_measurements != c["m"]:
            raise Violation("measurement count", f"{what}: {circ.num_measurements} instead of {c['m']}")
        s = circ.compile_sampler(seed=1 + c["_rs"]).sample(40 * len(recs))
        got = {tuple(int(x) for x in r) for r in s[:, mpos]}
        if got != recs:
            raise Violation("measurement records", f"{what}: {sorted(got)[:6]} instead of {sorted(recs)[:6]}")
        nd = [i for i, p in enumerate(c["pars"]) if not p["obs"]]
        no = [i for i, p in enumerate(c["pars"]) if p["obs"]]
        if circ.num_detectors != len(nd) or circ.num_observables != len(no):
            raise Violation("annotation count", f"{what}: {circ.num_detectors}/{circ.num_observables} instead of {len(nd)}/{len(no)}")
        d, o = circ.compile_m2d_converter(skip_reference_sample=True).convert(measurements=s, separate_observables=True)
        s = np.asarray(s)
        for idx, table, mp in ((nd, d, dets), (no, o, obss)):
            for i in idx:
                if i not in mp:
                    continue
                want = np.zeros(len(s), dtype=bool)
                for b in c["pars"][i]["cs"]:
                    want ^= s[:, mpos[b]]
                if (table[:, mp[i]] != want).any():
                    raise Violation("annotation value", f"{what}: annotation {i} {c['pars'][i]}")

    def circuit(self, c):
        import random
        import qrisp as q
        from qrisp.misc.stim_tools.error_class import StimNoiseGate
        rnd = random.Random(c["_rs"])
        qc = q.QuantumCircuit(c["n"], c["m"])
        perm = list(range(c["m"]))
        rnd.shuffle(perm)
        cl = [qc.clbits[perm[i]] for i in range(c["m"])]
        hs = []
        for t in c["prog"]:
            if t["t"] == "gate":
                o = t["op"]
                g = ("c" if o["c"] else "") + o["g"]
                getattr(qc, g)(*[qc.qubits[i] for i in o["c"] + o["q"]])
            elif t["t"] == "measure":
                qc.measure(qc.qubits[t["q"]], cl[t["c"]])
            elif t["t"] == "reset":
                qc.reset(qc.qubits[t["q"]])
            elif t["t"] == "cif":
                op = {"x": q.XGate, "y": q.YGate, "z": q.ZGate}[t["op"]["g"]]()
                qc.append(op.c_if(1, ctrl_state=qlib.bits(t["s"])), [qc.qubits[t["op"]["q"][0]]], [cl[t["c"][0]]])
            elif t["t"] == "err":
                qc.append(StimNoiseGate(t["op"]["g"].upper() + "_ERROR", 1.0), [qc.qubits[t["op"]["q"][0]]])
            else:
                for p in [t["p"]] if t["t"] == "par" else t["ps"]:
                    hs.append(qc.parity([cl[b] for b in p["cs"]], expectation=p["e"], observable=p["obs"]))
        circ, mm, dm, om = qc.to_stim(return_measurement_map=True, return_detector_map=True, return_observable_map=True)
        self.stim_ok(c, circ, [mm[cl[i]] for i in range(c["m"])], {i: dm[h] for i, h in enumerate(hs) if not c["pars"][i]["obs"]},
                     {i: om[h] for i, h in enumerate(hs) if c["pars"][i]["obs"]}, "circuit")

    def function(self, c, order):
        import jax.numpy as jnp
        import qrisp as q
        from qrisp.jasp import parity
        from qrisp.misc.stim_tools import stim_noise

        def run():
            qv = q.QuantumVariable(c["n"])
            ms, ps = [], []
            for t in c["prog"]:
                if t["t"] == "gate":
                    o = t["op"]
                    g = ("c" if o["c"] else "") + o["g"]
                    getattr(q, g)(*[qv[i] for i in o["c"] + o["q"]])
                elif t["t"] == "measure":
                    ms.append(q.measure(qv[t["q"]]))
                elif t["t"] == "reset":
                    q.reset(qv[t["q"]])
                elif t["t"] == "cif":
                    b = ms[t["c"][0]]
                    with q.control(b if t["s"] == [1] else ~b):
                        getattr(q, t["op"]["g"])(qv[t["op"]["q"][0]])
                elif t["t"] == "err":
                    stim_noise(t["op"]["g"].upper() + "_ERROR", 1.0, qv[t["op"]["q"][0]])
                elif t["t"] == "par":
                    p = t["p"]
                    ps.append(parity(*[ms[b] for b in p["cs"]], expectation=p["e"], observable=p["obs"]))
                else:
                    a = jnp.array([ms[p["cs"][0]] for p in t["ps"]])
                    b = jnp.array([ms[p["cs"][1]] for p in t["ps"]])
                    r = parity(a, b, expectation=t["ps"][0]["e"], observable=t["ps"][0]["obs"])
                    ps += [r[0], r[1]]
            return tuple(ms) + tuple(ps[i] for i in order)
        return run

    def execute(self, c):
        import random
        import numpy as np
        import qrisp as q
        from qrisp.jasp import extract_stim, jaspify, stimulate
        self.circuit(c)
        m = c["m"]
        order = list(range(len(c["pars"])))
        random.Random(c["_rs"]).shuffle(order)
        run = self.function(c, order)
        # conditions on negated results are computed classically, which stabiliser circuits do not have
        if not any(t["t"] == "cif" and t["s"] == [0] for t in c["prog"]):
            ret = c["_rs"] % 2 == 1
            *res, circ = (extract_stim(detector_order="return_order") if ret else extract_stim)(run)()
            pos = [int(x) for x in res[:m]]
            where = {i: int(res[m + j]) for j, i in enumerate(order)}
            if ret and [where[i] for i in order if not c["pars"][i]["obs"]] != list(range(sum(not p["obs"] for p in c["pars"]))):
                raise Violation("order of detectors", f"{where}")
            self.stim_ok(c, circ, pos, where, where, "traced")
        if any(t["t"] == "err" for t in c["prog"]):
            return
        recs = {tuple(r) for r in c["recs"]}

        def value(p, r):
            return (sum(r[b] for b in p["cs"]) + p["e"]) % 2
        fails = [any(value(p, r) for p in c["pars"] if not p["obs"]) for r in recs]
        # the stabiliser simulator takes these gates only
        clif = all(("c" if t["op"]["c"] else "") + t["op"]["g"] in ("x", "y", "z", "h", "cx", "cy", "cz", "s", "s_dg", "sx", "sx_dg", "swap") for t in c["prog"] if t["t"] == "gate")
        f = stimulate(run) if clif and c["_rs"] % 2 else jaspify(run)
        for _ in range(3):
            try:
                res = f()
            except Exception as e:
                if "Parity expectation deviated" in str(e) and any(fails):
                    continue
                raise
            res = [int(x) for x in (res if isinstance(res, tuple) else (res,))]
            r = tuple(res[:m])
            if r not in recs:
                raise Violation("impossible record", f"{r} not in {sorted(recs)[:6]}")
            for j, i in enumerate(order):
                if res[m + j] != value(c["pars"][i], r):
                    raise Violation("parity value", f"{c['pars'][i]} on {r}: {res[m + j]}")


CHECK = P27
