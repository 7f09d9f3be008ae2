"""Shared machinery of the checks.

A check (harness/checks/<id>.py) states which TLA+ specifications it explores,
which of them it asks TLC to generate test cases from, and how one generated
case is replayed into the implementation.  Everything else is here: running
TLC, the worker pool, the verdict rule, known findings and evidence.
"""
import hashlib
import json
import multiprocessing as mp
import os
import queue
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src/qrisp"
SPECS = os.path.join(VERIF, "specs")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NWORK = int(os.environ.get("VERIF_WORKERS", str(min(8, os.cpu_count() or 1))))
TOOLS = "/usr/local/bin/tlc"


class MachineryError(Exception):
    """The check itself failed; never a verdict about the code."""


class Violation(Exception):
    """The implementation contradicts the specification.

    sig identifies the clause that failed (and, where useful, the call site);
    known findings are matched against it."""

    def __init__(self, sig, detail=""):
        super().__init__(f"{sig}: {detail}")
        self.sig = sig
        self.detail = detail


# --------------------------------------------------------------------- TLC

def _cfg_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(_cfg_value(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        raise MachineryError("sequences cannot be written in a cfg file")
    return str(v)


class TLCRun:
    """Outcome of one TLC process."""

    def __init__(self, module, generated, distinct, cases, out, wall):
        self.module, self.generated, self.distinct = module, generated, distinct
        self.cases, self.out, self.wall = cases, out, wall


def run_tlc(module, consts=None, *, simulate=None, depth=100, seed=1, spec="Spec", init=None, next_=None,
            invariants=(), properties=(), postcondition=None, constraint=None, view=None, work=None,
            timeout=600, out_const=None, env=None, workers=1, heap="2g", extra_files=None, overrides=None):
    """Run TLC on specs/<module>.tla and return its counts and emitted cases.

    out_const names the constant that receives the path of the file the
    specification writes its cases to."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=work)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
    for name, text in (extra_files or {}).items():
        with open(os.path.join(d, name), "w") as fh:
            fh.write(text)
    out_file = os.path.join(d, "cases.ndjson")
    lines = []
    if init:
        lines += [f"INIT {init}", f"NEXT {next_}"]
    elif spec:
        lines.append(f"SPECIFICATION {spec}")
    lines.append("CHECK_DEADLOCK FALSE")
    consts = dict(consts or {})
    if out_const:
        consts[out_const] = out_file
    if consts or overrides:
        lines.append("CONSTANTS")
        lines += [f"  {k} = {_cfg_value(v)}" for k, v in consts.items()]
        lines += [f"  {k} <- {v}" for k, v in (overrides or {}).items()]
    for i in invariants:
        lines.append(f"INVARIANT {i}")
    for p in properties:
        lines.append(f"PROPERTY {p}")
    if constraint:
        lines.append(f"CONSTRAINT {constraint}")
    if view:
        lines.append(f"VIEW {view}")
    if postcondition:
        lines.append(f"POSTCONDITION {postcondition}")
    with open(os.path.join(d, "MC.cfg"), "w") as fh:
        fh.write("\n".join(lines) + "\n")
    cmd = [TOOLS, "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE",
           "-config", "MC.cfg"]
    if simulate is not None:
        cmd += ["-simulate", f"num={simulate}", "-depth", str(depth), "-seed", str(seed)]
    else:
        cmd += ["-seed", str(seed), "-fp", "1"]
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss64m -XX:ParallelGCThreads=2 -Djava.io.tmpdir={d}"
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired as exc:
        raise MachineryError(f"TLC timed out on {module}") from exc
    out = p.stdout
    if p.returncode != 0:
        raise MachineryError(f"TLC failed on {module} (exit {p.returncode}) in {d}:\n" + out[-6000:])
    gen = dist = 0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        gen, dist = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            gen = int(m[-1])
    cases = []
    if os.path.exists(out_file):
        with open(out_file) as fh:
            for line in fh:
                line = line.strip()
                if line:
                    c = json.loads(line)
                    if isinstance(c, str):
                        c = json.loads(c)
                    cases.append(c)
    shutil.rmtree(d, ignore_errors=True)
    return TLCRun(module, gen, dist, cases, out, time.time() - t0)


# ------------------------------------------------------------------ verdicts

def blame(exc):
    """True if the exception came out of the implementation.  Decided by the
    innermost frame of repository code below the harness: an exception whose
    traceback never enters /repo/src is a fault of the harness."""
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        for fr in traceback.extract_tb(e.__traceback__):
            if "/src/qrisp/" in fr.filename:
                return True
        todo += [e.__cause__, e.__context__]
    return False


def site(exc):
    """Innermost repository function of a traceback, without line numbers."""
    s = ""
    for fr in traceback.extract_tb(exc.__traceback__):
        if "/src/qrisp/" in fr.filename:
            s = f"{os.path.basename(fr.filename)}:{fr.name}"
    return s


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def guarded(execute, case, limit):
    """-> (status, sig, detail); status in ok / violation / error / skip"""
    random.seed(case.get("_rs", 0))
    try:
        import numpy as np
        np.random.seed(case.get("_rs", 0) % (2**32))
    except ImportError:
        pass
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        info = execute(case)
        return ("ok", "", info)
    except Violation as v:
        return ("violation", v.sig, v.detail[:3000])
    except CaseTimeout:
        return ("violation", "no answer", f"no answer within {limit} s")
    except MachineryError as e:
        return ("error", "machinery", str(e)[:3000])
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if blame(e):
            return ("violation", f"raised {type(e).__name__} in {site(e)}", tb)
        return ("error", "harness", tb)
    finally:
        signal.alarm(0)


def _worker(execute, init, inq, outq, limit, quiet):
    if quiet:
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        sys.stdout = os.fdopen(os.dup(fd), "w")
        sys.stderr = os.fdopen(os.dup(fd), "w")
    try:
        if init:
            init()
    except BaseException as e:  # noqa: BLE001
        tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        outq.put((-1, ("initfail" if not blame(e) else "initviolation", "", tb)))
        return
    while True:
        item = inq.get()
        if item is None:
            break
        i, case = item
        outq.put((i, "start", os.getpid()))
        r = guarded(execute, case, limit)
        outq.put((i, r))


def run_pool(execute, cases, *, init=None, limit=240, method="fork", nwork=None, quiet=True, chunk_kill=None):
    """Replay the cases in worker processes.  Returns a list of results in case order."""
    ctx = mp.get_context(method)
    nwork = min(nwork or NWORK, max(1, len(cases)))
    inq, outq = ctx.Queue(), ctx.Queue()
    for i, c in enumerate(cases):
        inq.put((i, c))
    for _ in range(nwork * 3):
        inq.put(None)
    procs = []

    def spawn():
        p = ctx.Process(target=_worker, args=(execute, init, inq, outq, limit, quiet), daemon=True)
        p.start()
        procs.append(p)

    for _ in range(nwork):
        spawn()
    results = [None] * len(cases)
    left = len(cases)
    running = {}
    dead_restarts = 0
    handled = set()
    while left:
        try:
            msg = outq.get(timeout=2)
        except queue.Empty:
            for p in list(procs):
                if not p.is_alive() and p.pid not in handled:
                    handled.add(p.pid)
                    lost = [i for i, pid in running.items() if pid == p.pid and results[i] is None]
                    for i in lost:
                        results[i] = ("violation", "process died", f"worker exit code {p.exitcode}")
                        left -= 1
                    if (lost or p.exitcode) and dead_restarts < 6:
                        dead_restarts += 1
                        spawn()
            if not any(p.is_alive() for p in procs) and outq.empty():
                if left:
                    raise MachineryError(f"workers gone with {left} cases left")
            continue
        if msg[0] == -1:
            st, _, tb = msg[1]
            for p in procs:
                p.kill()
            if st == "initviolation":
                return [("violation", "setup of the replay failed in the implementation", tb)]
            raise MachineryError("worker initialisation failed:\n" + tb)
        if msg[1] == "start":
            running[msg[0]] = msg[2]
            continue
        if results[msg[0]] is None:
            results[msg[0]] = msg[1]
            left -= 1
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    return results


# ------------------------------------------------------------- known findings

def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [k for k in data.get("known", []) if k["property"] == pid]


def match_known(known, case, sig, detail):
    for k in known:
        if not re.search(k["sig"], sig):
            continue
        if "detail" in k and not re.search(k["detail"], detail or "", re.S):
            continue
        want = k.get("case", {})
        if all(_walk(case, key) == val for key, val in want.items()):
            return k
    return None


def _walk(case, key):
    for part in key.split("."):
        if isinstance(case, dict):
            case = case.get(part)
        elif isinstance(case, list) and part.isdigit() and int(part) < len(case):
            case = case[int(part)]
        else:
            return None
    return case


# ------------------------------------------------------------------ framework

class Check:
    """One property.  Subclasses fill in the attributes and methods below."""

    pid = None
    level = "model_checking"
    rule = ""
    assumptions = []
    limit = 240           # seconds one case may take
    method = "fork"       # worker start method ("spawn" for the JAX checks)
    nwork = None

    def __init__(self, work):
        self.work = work

    # -- to be provided
    def specs(self):
        """List of dicts: keyword arguments of run_tlc plus optional 'tag'.
        Exhaustive runs check the specification's own invariants; runs with
        out_const emit cases."""
        raise NotImplementedError

    def prepare(self):
        """Import and warm up the implementation (parent process, fork only)."""

    def init(self):
        """Per-worker set-up."""

    def execute(self, case):
        """Replay one case; raise Violation on disagreement."""
        raise NotImplementedError

    def select(self, cases):
        """Drop duplicates / trivial cases; default: exact duplicates."""
        seen, out = set(), []
        for c in cases:
            h = hashlib.md5(json.dumps(c, sort_keys=True).encode()).digest()
            if h not in seen:
                seen.add(h)
                out.append(c)
        return out

    def trivial(self, case):
        return False

    def post(self, cases, results):
        """Optional second phase: hand recorded observations back to TLC.
        Returns (extra_violations, tlc_runs): violations as (case, sig, detail)."""
        return [], []


def tlc_many(specs, work, par=None):
    """Run several TLC processes side by side."""
    with ThreadPoolExecutor(par or NWORK) as ex:
        futs = []
        for s in specs:
            s = dict(s)
            tag = s.pop("tag", None)
            module = s.pop("module")
            futs.append((tag, ex.submit(run_tlc, module, work=work, **s)))
        return [(tag, f.result()) for tag, f in futs]


def simulate_jobs(module, consts, total, jobs, seed, **kw):
    """Split a simulation of `total` behaviours over several TLC processes."""
    per = max(1, -(-total // jobs))
    return [dict(module=module, consts=consts, simulate=per, seed=(seed * 7919 + 101 * j + 17) % (2**31), **kw)
            for j in range(jobs)]


def main(check_cls, argv):
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_")
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(work, "numba")
    rc = 2
    try:
        rc = _main(check_cls(work), argv, t0)
    except MachineryError as e:
        print(f"CHECK-ERROR property={check_cls.pid}: {e}")
        rc = 2
    except BaseException as e:  # noqa: BLE001
        traceback.print_exc()
        print(f"CHECK-ERROR property={check_cls.pid}: {type(e).__name__}: {e}")
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def _replay_one(chk, path):
    with open(path) as fh:
        rec = json.load(fh)
    if chk.method == "fork":
        chk.prepare()
    chk.init()
    st, sig, detail = guarded(chk.execute, rec["case"], chk.limit)
    print(st, sig, detail)
    return 1 if st == "violation" else 0 if st == "ok" else 2


def _main(chk, argv, t0):
    pid = chk.pid
    if argv and argv[0] == "--replay":
        return _replay_one(chk, argv[1])
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith(pid + "-violation") or f == pid + ".json":
            os.remove(os.path.join(evdir, f))

    # TLC in the background while the implementation is imported.
    specs = chk.specs()
    prep_violation = None
    with ThreadPoolExecutor(1) as ex:
        fut = ex.submit(tlc_many, specs, chk.work)
        if chk.method == "fork":
            try:
                chk.prepare()
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, (KeyboardInterrupt, MachineryError)) or not blame(e):
                    fut.result()
                    raise
                prep_violation = ("".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
                                  f"raised {type(e).__name__} in {site(e)}")
        runs = fut.result()
    t_tlc = time.time() - t0
    cases = []
    for tag, r in runs:
        for c in r.cases:
            if tag is not None and isinstance(c, dict):
                c["tag"] = tag
            cases.append(c)
    emitted = len(cases)
    cases = chk.select(cases)
    for i, c in enumerate(cases):
        if isinstance(c, dict):
            c["_rs"] = (SEED * 1000003 + i * 7907) % (2**31)
    if prep_violation:
        results, cases = [("violation", prep_violation[1], prep_violation[0])], [{"prepare": True}]
    else:
        if not cases:
            raise MachineryError("the specification emitted no cases")
        results = run_pool(chk.execute, cases, init=chk.init, limit=chk.limit, method=chk.method, nwork=chk.nwork)
    if len(results) != len(cases):
        cases = [{"setup": True}]
    t_run = time.time() - t0

    errors = [(c, r) for c, r in zip(cases, results) if r[0] == "error"]
    viol = [(c, r[1], r[2]) for c, r in zip(cases, results) if r[0] == "violation"]
    extra, extra_runs = ([], []) if (errors or prep_violation) else chk.post(cases, results)
    viol += extra
    runs += [(None, r) for r in extra_runs]

    known = known_findings(pid)
    fresh, knownhit = [], {}
    for c, sig, detail in viol:
        k = match_known(known, c, sig, detail)
        if k is None:
            fresh.append((c, sig, detail))
        else:
            knownhit.setdefault(k["id"], [k, 0])[1] += 1

    nontrivial = sum(1 for c in cases if not chk.trivial(c))
    ok = sum(1 for r in results if r[0] == "ok")
    cov = {
        "states": sum(r.distinct or r.generated for _, r in runs),
        "transitions": sum(r.generated for _, r in runs),
        "traces_validated_against_impl": ok,
        "evaluations": len(cases),
        "distinct_nontrivial": nontrivial,
        "emitted_by_tlc": emitted,
        "rule": chk.rule,
        "samples": [_short(c) for c in cases[:2]],
        "spec_runs": [{"module": r.module, "generated": r.generated, "distinct": r.distinct,
                       "cases": len(r.cases), "wall_s": round(r.wall, 1)} for _, r in runs],
        "known_finding_hits": {k: n for k, (_, n) in knownhit.items()},
    }
    cov.update(chk.extra_coverage(cases, results) if hasattr(chk, "extra_coverage") else {})
    ev = {
        "property": pid, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": chk.level,
        "coverage": cov, "assumptions": list(chk.assumptions), "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)

    for k, (rec, n) in sorted(knownhit.items()):
        print(f"KNOWN-FINDING: property={pid} {rec['what']} ({n} cases)")
    print(f"{pid}: {len(cases)} cases, {ok} ok, {len(fresh)} violations, {len(errors)} errors, "
          f"tlc {t_tlc:.0f}s total {t_run:.0f}s")
    if fresh:
        by = {}
        for c, sig, detail in fresh:
            by.setdefault(sig, []).append((c, detail))
        first = None
        for n, (sig, lst) in enumerate(sorted(by.items(), key=lambda kv: -len(kv[1]))):
            c, detail = min(lst, key=lambda cd: len(json.dumps(cd[0])))
            path = os.path.join(evdir, f"{pid}-violation-{n}.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "sig": sig, "count": len(lst), "case": c, "detail": detail}, fh, indent=1)
            first = first or path
            if n < 12:
                if os.environ.get("VERIF_DEBUG"):
                    print(json.dumps([x[0] for x in sorted(lst, key=lambda cd: len(json.dumps(cd[0])))[:4]])[:3000])
                print(f"  [{len(lst)}x] {sig} :: {str(detail)[-300:]!r}")
        print(f"VIOLATION property={pid} replay={first}")
        return 1
    if errors:
        print(f"CHECK-ERROR property={pid}: {len(errors)} harness errors, first:")
        print(errors[0][1][2])
        print(json.dumps(errors[0][0])[:2000])
        return 2
    return 0


def _short(c):
    s = json.dumps(c)
    return c if len(s) < 2500 else s[:2500] + "..."
