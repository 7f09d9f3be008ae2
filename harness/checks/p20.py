"""P20: backends and batched execution keep the result contract."""
import warnings

import qlib
from common import Check, SEED, TIER, Violation, simulate_jobs

BAD = {"zero": 0, "neg": -3, "bool": True, "float": 2.0, "str": "5"}


class P20(Check):
    pid = "P20"
    method = "spawn"
    rule = ("A case is one history of submissions, dispatches with injected failures, clears, direct runs, option updates and result reads generated by TLC from "
            "Backend.tla with the expected state of every submission and the expected work log of the wrapped backend; non-trivial: at least two steps.")
    assumptions = ["the wrapped backend returns one result per circuit or raises; single threaded use (documented)"]

    def specs(self):
        f = 1 if TIER != "thorough" else 8
        ex = dict(Sampling=False, MinLen=4, MaxLen=4, MaxId=4, MaxQ=3, Profile="tiny", OutFile="/dev/null")
        inv = ["QueueOk", "OnceOk", "LimitOk", "ErrOk"]
        out = [dict(module="Backend", consts=ex, workers=2, invariants=inv)]
        out += simulate_jobs("Backend", dict(Sampling=True, MinLen=2, MaxLen=14, MaxId=16, MaxQ=9, Profile="mixed"), 1500 * f, 3, SEED, depth=60, out_const="OutFile", tag="mixed")
        out += simulate_jobs("Backend", dict(Sampling=True, MinLen=20, MaxLen=40, MaxId=40, MaxQ=20, Profile="mixed"), 150 * f, 1, SEED + 7, depth=120, out_const="OutFile", tag="long")
        return out

    def trivial(self, c):
        return len(c["toks"]) < 3

    def prepare(self):
        qlib.warm()

    def execute(self, c):
        import qrisp as q
        from qrisp.interface import Backend, BatchedBackend, Job, JobResult, JobStatus, VirtualBackend
        from qrisp.interface.simulators.qrisp_simulator_backend import QrispSimulatorBackend
        from qrisp.simulator.simulator import run as simulate
        rs = c["_rs"]
        opt0 = {"shots": c["toks"][0]["s"] or None, "token": "", "tag": 1}
        log, plan = [], {"n": 0, "f": 0, "w": "", "x": -1}

        def circuit(code):
            qc = q.QuantumCircuit(3, 3)
            for i in range(3):
                if code >> i & 1:
                    qc.x(qc.qubits[i])
            for i in range(3):
                qc.measure(qc.qubits[i], qc.clbits[i])
            return qc

        def outcome(qc):
            (bits,) = simulate(qc, 1, "").keys()
            return int(bits.replace(" ", "")[:3], 2)

        def note(be, circuits, shots):
            """Record one call of the wrapped backend; the failure that is planned for it, if any."""
            cs = [circuits] if isinstance(circuits, q.QuantumCircuit) else list(circuits)
            sh = list(shots) if isinstance(shots, (list, tuple)) else [shots] * len(cs)
            sh = [(be.options["shots"] if s is None else s) or 0 for s in sh]
            log.append([[outcome(x), s] for x, s in zip(cs, sh)] if len(sh) == len(cs) else ["shots", len(cs), len(sh)])
            plan["n"] += 1
            if plan["x"] >= 0 and plan["n"] == 1:
                plan["call"](plan["x"])
            return plan["w"] if plan["n"] == plan["f"] else None

        class Sim(QrispSimulatorBackend):
            max_circuits = c["lim"] or None

            @classmethod
            def _default_options(cls):
                return dict(opt0)

            def run_async(self, circuits, shots=None):
                try:
                    self._check_circuit_limit(circuits)
                except ValueError:
                    return super().run_async(circuits, shots)
                f = note(self, circuits, shots)
                if f == "submit":
                    raise OSError("planned %d" % len(log))
                return super().run_async([object()] if f else circuits, shots if not f else None)

        class Virt(VirtualBackend):
            max_circuits = c["lim"] or None

            @classmethod
            def _default_options(cls):
                return dict(opt0)

            def run_async(self, circuits, shots=None):
                try:
                    self._check_circuit_limit(circuits)
                except ValueError:
                    return super().run_async(circuits, shots)
                plan["virt"] = note(self, circuits, shots)
                if plan["virt"] == "submit":
                    raise OSError("planned %d" % len(log))
                return super().run_async(circuits, shots)

        def run_func(qasm, shots, token):
            if plan.get("virt"):
                raise OSError("planned %d" % len(log))
            return simulate(q.QuantumCircuit.from_qasm_str(qasm), shots, token)

        class LaterJob(Job):
            def __init__(self, be, cs, sh, f):
                super().__init__(be, job_id="j%d" % len(log))
                self.cs, self.sh, self.f, self.n = cs, sh, f, 0
                self._last_known_status = JobStatus.QUEUED

            def status(self):
                self.n += 1
                self._last_known_status = [JobStatus.QUEUED, JobStatus.RUNNING][self.n - 1] if self.n < 3 else JobStatus.ERROR if self.f else JobStatus.DONE
                return self._last_known_status

            def result(self, timeout=None):
                while not self.in_final_state():
                    pass
                if self.f:
                    self._failure_cause = OSError("planned")
                self._raise_for_status(self._last_known_status)
                return JobResult([simulate(x, s, "") for x, s in zip(self.cs, self.sh)])

            def cancel(self):
                return False

        class Later(Backend):
            max_circuits = c["lim"] or None

            @classmethod
            def _default_options(cls):
                return dict(opt0)

            def run_async(self, circuits, shots=None):
                self._check_circuit_limit(circuits)
                f = note(self, circuits, shots)
                if f == "submit":
                    raise OSError("planned %d" % len(log))
                cs = [circuits] if isinstance(circuits, q.QuantumCircuit) else list(circuits)
                if isinstance(shots, list):
                    self._validate_shots_length(shots, cs)
                sh = shots if isinstance(shots, list) else [shots] * len(cs)
                return LaterJob(self, cs, [self.options["shots"] if s is None else s for s in sh], f)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            be = [lambda: Sim(), lambda: Virt(run_func), lambda: Later()][rs % 3]()
        bb = be.batched() if rs % 2 else BatchedBackend(be)
        res, form, errs = [], [], []

        def keep(r, f):
            res.append(r)
            form.append(f)

        def extra(code):
            plan["late"] = bb.run(circuit(code))
        plan["call"] = extra

        def counts(r, code, shots, what):
            d = dict(r)
            if {int(k.replace(" ", ""), 2) for k in d} != {code} or len(d) != 1 or abs(sum(d.values()) - (shots or 1)) > 1e-6:
                raise Violation(f"{what}: wrong result", f"{d} for outcome {code} with {shots} shots")

        def read(i, how, st, e, code, shots):
            r = res[i]
            if how == "repr":
                s = repr(r)
                if st != "ok" and "pending" not in s:
                    raise Violation("repr of a result that is not available", s)
                if st == "ok" and s != repr(dict(r)):
                    raise Violation("repr of an available result", s)
                return
            try:
                v = r[next(iter(r))] if how == "get" else len(r) if how == "len" else list(iter(r)) if how == "iter" else (r == {"x": 1}) if how == "eq" else dict(r)
            except Exception as ex:
                if st == "ok":
                    raise Violation("available result raises", f"{type(ex).__name__}: {ex}")
                if st in ("queued", "gone"):
                    if not isinstance(ex, RuntimeError) or errs and any(ex is x for x in errs):
                        raise Violation("reading an unavailable result", f"{type(ex).__name__}: {ex}")
                elif type(ex) is not type(errs[e - 1]) or str(ex) != str(errs[e - 1]):
                    raise Violation("error of another submission", f"{ex!r} instead of {errs[e - 1]!r}")
                return
            if st != "ok":
                raise Violation("result available without execution", f"{st} {v}")
            if form[i] == "raw":
                counts(r, code, shots, "read")
            else:
                d = dict(r)
                lab = code if form[i] == "var" else (code, code % 2)
                if set(d) != {lab} or abs(sum(d.values()) - 1) > 1e-6:
                    raise Violation("decoded result", f"{d} for {lab}")

        def settle(n=0, f=0, w="", x=-1):
            plan.update(n=0, f=f, w=w, x=x)
        for t in c["toks"][1:]:
            k = t["t"]
            kw = {} if t.get("s", -1) == -1 else {"shots": t["s"]}
            settle()
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                if k == "enq":
                    if t["form"] == "raw":
                        cs = [circuit(x) for x in t["cs"]]
                        one = len(cs) == 1 and rs % 5 < 3
                        r = bb.run(cs[0] if one else cs if rs % 7 else tuple(cs), **kw)
                        if one == isinstance(r, list) or not one and len(r) != len(cs):
                            raise Violation("shape of the returned results", repr(type(r)))
                        for x in [r] if one else r:
                            keep(x, "raw")
                    else:
                        a = q.QuantumFloat(3)
                        a[:] = t["cs"][0]
                        if t["form"] == "var":
                            keep(a.get_measurement(backend=bb, **kw), "var")
                        else:
                            b = q.QuantumFloat(1)
                            b[:] = t["cs"][0] % 2
                            q.merge([a.qs, b.qs])
                            keep(q.multi_measurement([a, b], backend=bb, **kw), "multi")
                elif k == "bad":
                    try:
                        (be if t["direct"] else bb).run(circuit(1), shots=BAD[t["w"]])
                    except (TypeError, ValueError):
                        pass
                    else:
                        raise Violation("invalid number of shots accepted", t["w"])
                elif k == "dispatch":
                    n = bb.pending_count
                    settle(f=t["f"], w=t["w"], x=t["x"])
                    try:
                        bb.dispatch()
                    except Exception as ex:
                        if not t["f"]:
                            raise
                        errs.append(ex)
                    else:
                        if t["f"]:
                            raise Violation("dispatch hides a failure", "")
                    if t["x"] >= 0:
                        keep(plan["late"], "raw")
                    if c["lim"] and n > c["lim"] and not any(issubclass(x.category, UserWarning) and "limit" in str(x.message) for x in ws):
                        raise Violation("no warning about a split batch", "")
                elif k == "clear":
                    bb.clear()
                elif k == "run":
                    settle(f=int(t["f"]), w=t["w"])
                    cs = [circuit(x) for x in t["cs"]]
                    one = len(cs) == 1 and rs % 5 < 3
                    try:
                        if t["job"]:
                            job = be.run_async(cs[0] if one else cs, **kw)
                            try:
                                r = job.result()
                            except Exception:
                                if job.status() != JobStatus.ERROR or not job.in_final_state() or job.done():
                                    raise Violation("status of a failed job", str(job.status()))
                                try:
                                    job.result()
                                except Exception:
                                    raise
                                raise Violation("failed job yields a result on the second read", "")
                            if not job.done() or not job.in_final_state() or job.running() or job.queued() or job.cancelled() or job.cancel():
                                raise Violation("status of a finished job", str(job.status()))
                            if r.num_circuits != len(cs):
                                raise Violation("number of results of a job", f"{r.num_circuits} for {len(cs)} circuits")
                            r = [r.get_counts(i) for i in range(len(cs))]
                        else:
                            r = be.run(cs[0] if one else cs, **kw)
                            if one == isinstance(r, list):
                                raise Violation("shape of the returned results", repr(type(r)))
                            r = [r] if one else r
                    except Violation:
                        raise
                    except Exception as ex:
                        if not (t["f"] or t["over"]) or t["over"] and not isinstance(ex, ValueError):
                            raise
                    else:
                        if t["f"] or t["over"]:
                            raise Violation("direct run hides a failure", "")
                        if len(r) != len(cs):
                            raise Violation("number of results", f"{len(r)} for {len(cs)} circuits")
                        for x in r:
                            keep(x, "raw")
                elif k == "opt":
                    who = bb if rs % 2 else be
                    kw = {"shots": {"shots": t["n"]}, "tag": {"tag": t["v"]}, "both": {"shots": t["n"], "tag": t["v"]}}.get(t["w"][:5])
                    try:
                        if t["w"] == "unknown":
                            who.update_options(tag=t["v"], nonsense=1)
                        elif t["w"] == "badshots":
                            who.update_options(tag=t["v"], shots=-t["n"])
                        else:
                            who.update_options(**{"shots": {"shots": t["n"]}, "tag": {"tag": t["v"]}, "both": {"shots": t["n"], "tag": t["v"]}}[t["w"]])
                    except (AttributeError, ValueError, TypeError) as ex:
                        if t["w"] not in ("unknown", "badshots"):
                            raise
                    else:
                        if t["w"] in ("unknown", "badshots"):
                            raise Violation("invalid option accepted", t["w"])
                elif k == "read":
                    read(t["i"] - 1, t["how"], t["st"], t["e"], t["c"], t["s"])
        if bb.pending_count != len(c["queue"]):
            raise Violation("pending count", f"{bb.pending_count} instead of {len(c['queue'])}")
        if log != c["log"]:
            raise Violation("work handed to the backend", f"{log} instead of {c['log']}")
        if (be.options["shots"] or 0, be.options["tag"]) != tuple(c["opt"]) or dict(bb.options) != dict(be.options):
            raise Violation("options", f"{dict(be.options)} instead of {c['opt']}")
        for i, s in enumerate(c["subs"]):
            read(i, "dict", s["st"], s["e"], s["c"], s["s"])


CHECK = P20
