"""Simulation driver: seeds, runs, event logs, minimisation, replay files, evidence.

A *plan* is a JSON value which, with the code under test, decides a run completely:
the workload (histories of operations and their arguments), the schedule and every
fault.  Property modules provide

    generate(rng, tier) -> plan        all randomness is drawn here
    execute(plan, ctx)  -> None        raises Violation if the property is broken
    shrink(plan)        -> iterator    optional, simpler plans (besides the generic ones)

and execute() never draws a random number which is not a function of the plan.
"""
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time as _time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SRMISE_REPO", "/repo")
_wall = _time.monotonic  # bound before anything patches the time module


class Violation(Exception):
    """The property does not hold. kind identifies the class of the violation."""

    def __init__(self, kind, detail=""):
        Exception.__init__(self, kind, detail)
        self.kind = kind
        self.detail = str(detail)[:2000]


class SimCrash(BaseException):
    """The simulated process dies here."""


class SimHang(BaseException):
    """The run exceeded its budget."""


class SkipRun(Exception):
    """The plan turned out to exercise nothing (counted, never a pass for a violation)."""


class Ctx(object):
    """What a run reports."""

    def __init__(self, scratch=None, verbose=False):
        self.counts = {}
        self.digest = hashlib.sha1()
        self.nevents = 0
        self.trail = []
        self.nontrivial = False
        self.simtime = 0.0
        self.scratch = scratch
        self.verbose = verbose
        self.states = set()

    def log(self, *event):
        s = repr(event)
        if self.scratch:
            s = s.replace(self.scratch, "$S")
        self.digest.update(s.encode("utf8", "replace"))
        self.nevents += 1
        if len(self.trail) < 400:
            self.trail.append(s[:300])
        if self.verbose:
            print("   event", s[:300])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, kind, n=1):
        """A fault really fired."""
        self.count("fault:" + kind, n)
        self.nontrivial = True

    def probe(self, name):
        self.count("probe:" + name)

    def state(self, *key):
        """Register an abstract state reached."""
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def check(self, cond, kind, detail=""):
        self.count("checks")
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)


def subseed(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:8], "big")


_loaded = {}


def load_prop(pid):
    if pid not in _loaded:
        _loaded[pid] = importlib.import_module("props." + pid.lower())
    return _loaded[pid]


def _alarm(signum, frame):
    raise SimHang("run exceeded its time limit")


def raised_in_code(e):
    """Functions of the code under test an exception passed through, innermost last."""
    src = os.path.join(os.path.realpath(REPO), "src") + os.sep
    out = []
    tb = e.__traceback__
    while tb is not None:
        code = tb.tb_frame.f_code
        if os.path.realpath(code.co_filename).startswith(src):
            out.append(code.co_qualname)
        tb = tb.tb_next
    return " > ".join(out[-4:])


def run_plan(pid, plan, limit=120, verbose=False):
    """Run one plan in a scratch directory of its own.

    Returns dict(status=ok|skip|violation|hang|error, ...)."""
    mod = load_prop(pid)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    # A fixed-length name: the length of the path must not influence anything.
    scratch = tempfile.mkdtemp(prefix="srmisesim-", dir=base)
    ctx = Ctx(scratch, verbose)
    out = {"status": "ok"}
    from sim import world

    cwd = os.getcwd()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    gc.collect()
    gc.disable()
    t0 = _wall()
    try:
        try:
            world.reset_process()
            mod.execute(copy.deepcopy(plan), ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        out = {"status": "violation", "kind": e.kind, "detail": e.detail}
    except SkipRun as e:
        out = {"status": "skip", "detail": str(e)}
    except SimHang:
        out = {"status": "hang", "kind": "no-progress", "detail": "not finished after %ss" % limit}
    except BaseException as e:
        where = raised_in_code(e)
        if where and isinstance(e, Exception):
            # An operation which must work raised.
            out = {
                "status": "violation",
                "kind": "unexpected-" + type(e).__name__,
                "detail": "%s: %s in %s" % (type(e).__name__, str(e)[:500], where),
            }
        else:
            # Not a property decision: the harness did not expect it.
            out = {"status": "error", "detail": traceback.format_exc()[-3000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        try:
            world.reset_process()
        except Exception:
            pass
        gc.enable()
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    if "detail" in out:
        out["detail"] = out["detail"].replace(scratch, "$S")
    out.update(
        counts=ctx.counts,
        digest=ctx.digest.hexdigest(),
        nevents=ctx.nevents,
        nontrivial=ctx.nontrivial,
        simtime=ctx.simtime,
        states=sorted(ctx.states),
        wall=_wall() - t0,
        trail=ctx.trail,
    )
    return out


def make_plan(pid, seed, index, tier):
    rng = random.Random(subseed(pid, seed, index))
    mod = load_prop(pid)
    plan = mod.generate(rng, tier)
    return json.loads(json.dumps(plan))  # what a replay file will hold


# --- workers ----------------------------------------------------------------


def _worker(pid, seed, tier, indices, wfd, stopfile, deadline, limit):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    out = os.fdopen(wfd, "w")
    for i in indices:
        if os.path.exists(stopfile) or _wall() > deadline:
            out.write(json.dumps({"index": i, "status": "stopped"}) + "\n")
            break
        try:
            plan = make_plan(pid, seed, i, tier)
        except Exception:
            out.write(json.dumps({"index": i, "status": "error", "detail": traceback.format_exc()}) + "\n")
            continue
        r = run_plan(pid, plan, limit)
        r["index"] = i
        if r["status"] in ("violation", "hang"):
            r["plan"] = plan
        elif i < 3:
            r["plan"] = plan
        if r["status"] not in ("violation", "error"):
            r.pop("trail", None)
        out.write(json.dumps(r) + "\n")
        out.flush()
    out.close()
    os._exit(0)


def run_batch(pid, seed, tier, nruns, jobs, wall_budget, limit, on_result):
    """Run plans 0..nruns-1 of seed on jobs processes; on_result(r) may return True to stop."""
    import selectors

    tmp = tempfile.mkdtemp(prefix="srmisebatch-")
    stopfile = os.path.join(tmp, "stop")
    deadline = _wall() + wall_budget
    sel = selectors.DefaultSelector()
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(jobs):
        indices = range(w, nruns, jobs)
        if not len(indices):
            continue
        rfd, wfd = os.pipe()
        child = os.fork()
        if child == 0:
            os.close(rfd)
            try:
                _worker(pid, seed, tier, indices, wfd, stopfile, deadline, limit)
            finally:
                os._exit(3)
        os.close(wfd)
        pids[rfd] = [child, b""]
        sel.register(rfd, selectors.EVENT_READ)
    failed = []
    hard = deadline + limit + 60
    while pids:
        if _wall() > hard:
            failed.append("workers did not stop in time")
            for child, _ in pids.values():
                os.kill(child, signal.SIGKILL)
            hard = _wall() + 30
        for key, _ in sel.select(1.0):
            fd = key.fd
            data = os.read(fd, 1 << 20)
            if not data:
                sel.unregister(fd)
                os.close(fd)
                child, _ = pids.pop(fd)
                _, st = os.waitpid(child, 0)
                if st != 0:
                    failed.append("worker ended with status %s" % st)
                continue
            pids[fd][1] += data
            *lines, pids[fd][1] = pids[fd][1].split(b"\n")
            for line in lines:
                if on_result(json.loads(line)):
                    open(stopfile, "w").close()
    shutil.rmtree(tmp, ignore_errors=True)
    return failed


# --- replay in a fresh process ----------------------------------------------


def run_fresh(pid, plan, limit=120, hashseed="0", env=None):
    """Run plan in a fresh interpreter."""
    f = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    json.dump({"property": pid, "plan": plan}, f)
    f.close()
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), **(env or {}))
    try:
        p = subprocess.run(
            [sys.executable, os.path.join(VERIF, "check.py"), "--run-plan", f.name, "--limit", str(limit)],
            env=env,
            capture_output=True,
            text=True,
            timeout=limit + 120,
        )
        for line in reversed(p.stdout.splitlines()):
            if line.startswith("RESULT "):
                return json.loads(line[7:])
        return {"status": "error", "detail": p.stdout[-1000:] + p.stderr[-2000:]}
    except subprocess.TimeoutExpired:
        return {"status": "hang", "kind": "no-progress", "detail": "fresh process timed out"}
    finally:
        os.unlink(f.name)


# --- minimisation -----------------------------------------------------------


def _paths(v, pre=()):
    """Paths to every list and number in v, lists first and outermost first."""
    if isinstance(v, dict):
        for k in v:
            yield from _paths(v[k], pre + (k,))
    elif isinstance(v, list):
        yield pre, v
        for i, e in enumerate(v):
            yield from _paths(e, pre + (i,))


def _get(v, path):
    for k in path:
        v = v[k]
    return v


def generic_shrinks(plan, keys):
    """Plans with elements of the lists below keys removed, larger chunks first."""
    for key in keys:
        if key not in plan or not isinstance(plan[key], list):
            continue
        n = len(plan[key])
        chunk = max(1, n // 2)
        while chunk >= 1:
            for start in range(0, n, chunk):
                q = copy.deepcopy(plan)
                del q[key][start : start + chunk]
                yield q
            chunk //= 2


def minimise(pid, plan, kind, limit, budget_s=60.0, max_tries=400):
    """Greedy reduction of plan while it violates the property in the same way."""
    mod = load_prop(pid)
    keys = getattr(mod, "SHRINK_LISTS", ("ops", "faults"))
    t0 = _wall()
    tries = 0
    best = plan
    progress = True
    while progress and _wall() - t0 < budget_s and tries < max_tries:
        progress = False

        def candidates():
            yield from generic_shrinks(best, keys)
            if hasattr(mod, "shrink"):
                yield from mod.shrink(copy.deepcopy(best))

        for cand in candidates():
            if _wall() - t0 > budget_s or tries >= max_tries:
                break
            if cand == best:
                continue
            tries += 1
            try:
                r = run_plan(pid, cand, limit)
            except Exception:
                continue
            if r["status"] == "violation" and r["kind"] == kind:
                best = json.loads(json.dumps(cand))
                progress = True
                break
    return best, tries
