"""C08: an interrupted operation leaves its inputs intact and can be repeated."""
import numpy as np

from sim import instants, ops, optim, world
from sim.world import r3

QUICK_RUNS = 600
THOROUGH_RUNS = 100000
LIMIT = 90
LEVEL = "exploration"
RULE = (
    "a run performs an extraction, fit, estimation or multi-model run on a twin object, counting executed lines and "
    "optimizer evaluations, then on the object itself with an exception at one to three chosen lines or evaluations "
    "(one after another), comparing inputs after each, and finally repeats it undisturbed; non-trivial: at least one "
    "exception struck; distinct by digest of the event log"
)
STATE_MEASURE = "(operation, function interrupted, exception, how the operation ended, prior result or not)"
REAL = ["PeakExtraction/PDFPeakExtraction", "ModelCluster", "DataClusters", "PeakStability/MultimodelSelection runs",
        "scipy leastsq"]
STUB = ["instants (sys.monitoring line events of diffpy.srmise)", "entry of scipy.optimize.leastsq (interrupts only)", "clock"]
ASSUMPTIONS = ["exceptions strike between executed lines of diffpy.srmise or at evaluations of the optimizer"]
SHRINK_LISTS = ("strikes",)

EXCS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError,
        "SystemExit": SystemExit, "OSError": OSError}


def generate(rng, tier):
    op = rng.choice(["extract", "extract", "extract", "extract_single", "fit", "fit", "fit_single", "estimate", "stability",
                     "multi"])
    cls = "PDF" if op in ("stability", "multi") else rng.choice(["PE", "PDF"])
    case = world.gen_case(rng, "small" if rng.random() < 0.1 else "tiny", cls=cls, want={"p_initial": 0.9 if "fit" in op else 0.5})
    if op in ("stability", "multi") and (case["baseline"] is None or case["baseline"]["pars"] is None):
        case["baseline"] = {"kind": "poly", "degree": 0, "pars": [0.0], "free": [True]}
    strikes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        t = rng.random()
        s = {"exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RuntimeError", "SystemExit", "OSError"])}
        if t < 0.5:
            s.update(at="frac", v=rng.random())
        elif t < 0.65:
            s.update(at="start", v=rng.randrange(300))
        elif t < 0.85:
            s.update(at="end", v=int(rng.expovariate(1 / 120.0)))
        else:
            s.update(at="eval", v=rng.random())
            s["exc"] = "KeyboardInterrupt"
        strikes.append(s)
    return {
        "case": case, "op": op, "x": r3(ops.inner(case, rng.uniform(0.3, 0.7))), "add": rng.random() < 0.6,
        "strikes": strikes, "prior": rng.choice([None, None, "fit", "extract"]), "other": rng.random() < 0.4,
        "errs": [r3(rng.uniform(0.1, 0.3)), r3(rng.uniform(0.3, 0.6))], "dyarr": rng.random() < 0.5,
    }


class User(object):
    """An extraction object with all that its user supplied and may still hold."""

    def __init__(self, plan):
        case = plan["case"]
        self.plan = plan
        self.x, self.y = world.synth(case)
        self.dy = None if case.get("dy") is None else case["dy"] * np.ones(len(self.x))
        self.pfs = world.make_pfs(case["pf"])
        self.kw = world.case_vars(case, self.pfs)
        if plan["dyarr"] and "effective_dy" in self.kw:
            self.kw["effective_dy"] = self.kw["effective_dy"] * np.ones(len(self.x))
        self.ext = world.PDFPeakExtraction() if case["cls"] == "PDF" else world.PeakExtraction()
        self.ext.setdata(self.x, self.y, None, self.dy)
        self.ext.setvars(quiet=True, **self.kw)
        self.ps = None
        if plan["op"] in ("stability", "multi"):
            self.ps = world.PeakStability() if plan["op"] == "stability" else world.MultimodelSelection()
            self.ps.setppe(self.ext)

    def inputs(self):
        names = world.Names()
        d = {"x": world._plain(self.x), "y": world._plain(self.y), "dy": world._plain(self.dy)}
        for k, v in self.kw.items():
            if k == "pf":
                d[k] = [names(f) for f in v]
            elif k == "initial_peaks":
                d[k] = world.snap_parts(v, names)
            elif k == "baseline":
                d[k] = {"function": names(v)} if isinstance(v, world.BaseFunction) else world.snap_part(v, names)
            else:
                d[k] = world._plain(v)
        d["functions"] = names.sigs
        return d

    def held(self):
        """The same variables as the object has them now."""
        e = self.ext
        names = world.Names(False)
        d = {"x": world._plain(e.x), "y": world._plain(e.y), "dy": world._plain(e.dy)}
        s = world.snap_ext(e, names, False)
        for k in self.kw:
            if k == "pf":
                d[k] = [self.pfs.index(f) for f in e.pf]
            elif k == "effective_dy" and self.ps is not None:
                continue  # the run's own variable
            else:
                d[k] = s[k]
        d["same"] = [e.pf is not None and list(e.pf) == list(self.kw["pf"]), e.x is not None and len(e.x)]
        return d

    def perform(self):
        p = self.plan
        with world.Silent():
            if p["op"] == "stability":
                return self.ps.run(p["errs"])
            if p["op"] == "multi":
                return self.ps.run(p["errs"], savecovs=True)
            if p["op"] == "estimate":
                return self.ext.estimate_peak(p["x"], p["add"])
            return ops.apply(self.ext, {"op": p["op"]})

    def outcome(self, r):
        """What the operation gave."""
        p = self.plan
        if self.ps is not None:
            return {"results": world.snap_results(self.ps), "covs": [world.snap_cov(c) for c in r]}
        if p["op"] == "estimate":
            return {"peak": None if r is None else world.snap_part(r, world.Names())}
        return {"cov": world.snap_cov(r), "result": world.result(self.ext)}


def prior(u, plan):
    if plan["prior"]:
        with world.Silent():
            ops.apply(u.ext, {"op": plan["prior"]})


def execute(plan, ctx):
    op = plan["op"]
    twin = User(plan)
    prior(twin, plan)
    base_initial = world.snap_parts(twin.ext.initial_peaks)
    pre = world.result(twin.ext)
    opt = optim.activate(optim.Optimizer(ctx))
    count = instants.Injector()
    with count:
        r = twin.perform()
    clean = twin.outcome(r)
    evals = opt.evals
    optim.deactivate()
    u = User(plan)
    prior(u, plan)
    in0 = u.inputs()
    held0 = u.held()
    added = tainted = False
    for i, s in enumerate(plan["strikes"]):
        exc = EXCS[s["exc"]]("simulated")
        if s["at"] == "eval":
            target = int(s["v"] * max(evals, 1))
            inj, o = instants.Injector(), Striker(ctx, target, exc)
            optim.activate(o)
        else:
            n = {"frac": lambda: int(s["v"] * count.count), "start": lambda: s["v"],
                 "end": lambda: max(0, count.count - 1 - s["v"])}[s["at"]]()
            inj, o = instants.Injector(n, exc), None
        ended, got = "done", None
        try:
            with inj:
                got = u.perform()
        except BaseException as e:
            if e is not exc:
                raise
            ended = "stopped"
            del e
        finally:
            optim.deactivate()
        struck = inj.fired or (o is not None and bool(o.fired) and "optimizer evaluation")
        if struck:
            ctx.fault("interrupt-" + s["exc"])
        where = "%s of %s%s at %s (strike %d)" % (s["exc"], op, " after " + plan["prior"] if plan["prior"] else "", struck, i)
        ctx.state(op, struck, s["exc"], ended, bool(plan["prior"]))
        ctx.log(i, struck, ended)
        d = world.diff(in0, u.inputs())
        if op == "estimate" and plan["add"] and d and ".initial_peaks" in d:
            # A peak may have been added, as was asked for.
            d = grown(in0["initial_peaks"], u.inputs().get("initial_peaks"), i + 1)
        ctx.check(d is None, "inputs-changed", lambda: "%s: %s" % (where, d))
        h = u.held()
        d = world.diff(held0, h)
        if op == "estimate" and plan["add"] and d and ".initial_peaks" in d:
            d = grown(held0["initial_peaks"], h.get("initial_peaks"), i + 1)
            added = True
        ctx.check(d is None, "variables-changed", lambda: "%s: %s" % (where, d))
        tainted = tainted or bool(struck) and isinstance(exc, Exception)
        check_visible(ctx, plan, u, clean, pre, where, tainted)
        if ended == "done" and not struck and not added:
            d = world.diff(clean, u.outcome(got))
            ctx.check(d is None or op == "estimate", "result-differs", lambda: "%s: %s" % (where, d))
        if op == "estimate" and (plan["add"] or plan["prior"]):
            added = True  # the next estimate works on other data
    if not added:
        d = world.diff(clean, u.outcome(u.perform()))
        ctx.check(d is None, "retry-differs", lambda: "%s with strikes %s: %s" % (op, plan["strikes"], d))
        d = world.diff(in0, u.inputs())
        ctx.check(d is None, "inputs-changed", lambda: "repeated %s: %s" % (op, d))
    if plan["other"]:
        v = User(plan)
        prior(v, plan)
        d = world.diff(clean, v.outcome(v.perform()))
        ctx.check(d is None, "other-object-differs", lambda: "%s after strikes %s: %s" % (op, plan["strikes"], d))
    ctx.log("clean", clean)


def grown(old, new, most):
    """None if new is old with up to most more peaks."""
    new = list(new or [])
    for p in old or []:
        if p not in new:
            return "peak %r lost" % (p,)
        new.remove(p)
    return None if len(new) <= most else "%d peaks added" % len(new)


def check_visible(ctx, plan, u, clean, pre, where, tainted):
    op = plan["op"]
    if u.ps is not None:
        got = world.snap_results(u.ps)["results"]
        want = clean["results"]["results"]
        if tainted:
            # An exception handled inside an optimizer call may have given another, complete result.
            ok = len(got) <= len(want) and all(
                g[0] == w[0] and g[3] == w[3] and g[1] is not None and type(g[2]) is type(w[2]) for g, w in zip(got, want))
        else:
            ok = len(got) <= len(want) and world.diff(want[: len(got)], got) is None
        ctx.check(ok, "incomplete-result-visible", lambda: "%s: %d of %d results" % (where, len(got), len(want)))
        return
    now = world.result(u.ext)
    if now["extracted"] is None:
        return
    if op == "estimate":
        if plan["prior"]:
            # Added to the extracted peaks, or not.
            ctx.check(now["type"] == pre["type"], "incomplete-result-visible", lambda: "%s: type %s" % (where, now["type"]))
        else:
            ctx.check(False, "incomplete-result-visible", lambda: "%s: a model" % where)
        return
    ok = (world.diff(now, pre) is None or world.diff(now, clean["result"]) is None
          or tainted and now["type"] == clean["result"]["type"] and complete(now))
    ctx.check(ok, "incomplete-result-visible", lambda: "%s: %s, undisturbed %s" % (
        where, world.diff(now, clean["result"]), now["type"]))


def complete(now):
    """A result found although an exception was handled inside: complete, if different."""
    return bool(now["extracted"]["r"]) and now["extracted"]["model"] is not None


class Striker(optim.Optimizer):
    """Raises at the n-th evaluation of all optimizer calls."""

    def __init__(self, ctx, n, exc):
        optim.Optimizer.__init__(self, ctx)
        self.target = n
        self.exc = exc
        self.total = 0

    def _count(self, func, args, kwds, fault, exc=None):
        def counted(*a, **k):
            self.total += 1
            if self.total == self.target + 1:
                self.fired.append(["eval", self.total])
                raise self.exc
            return func(*a, **k)

        if args:
            return optim._real(*([counted] + list(args[1:])), **kwds)
        return optim._real(**dict(kwds, func=counted))
