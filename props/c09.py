"""C09: concurrent use from several threads gives the serial results."""
import os
import random

import numpy as np

from sim import instants, ops, world
from sim.core import subseed
from sim.world import r3  # noqa: I001
from diffpy.srmise.dataclusters import DataClusters

QUICK_RUNS = 450
THOROUGH_RUNS = 60000
LIMIT = 120
LEVEL = "exploration"
RULE = (
    "a run has 2 to 4 threads, each with its own extraction, cluster or data set and up to 4 operations, sharing functions "
    "and data arrays; every thread is first run alone with objects of its own, then all together under a seeded scheduler "
    "switching at executed lines of diffpy.srmise (single preemptions, bursts of switches every few lines, round robin; in 30% of the runs also "
    "at lines of up to 6 random functions among those executed, in 40% at all lines executed, equally often at each, for "
    "random times); "
    "non-trivial: at least two switches happened; distinct by digest of schedule and results"
)
STATE_MEASURE = "(operation left, function it was left in, operation entered) at switches"
REAL = ["all of diffpy.srmise used by the operations", "scipy leastsq", "Python threads (one runs at a time)"]
STUB = ["thread scheduler", "clock"]
ASSUMPTIONS = ["threads are switched between executed lines of diffpy.srmise, not within C code"]
SHRINK_LISTS = ("switches", "threads")

KINDS = ("extract", "extract", "fit", "fit", "estimate", "evaluate", "evaluate", "cluster", "savestr", "saveload", "pdf",
         "multi", "cov", "query", "query")
LIGHT = ("query", "query", "evaluate", "cov", "savestr", "saveload", "pdf", "query")


def generate(rng, tier):
    base = world.gen_case(rng, "tiny")
    if rng.random() < 0.25:
        base["pf"].append(["TerminationRipples", 0, r3(rng.uniform(10, 25))])
    same = rng.random() < 0.5
    threads = []
    light = rng.random() < 0.35
    for _ in range(rng.choice([2, 2, 2, 3, 3, 4])):
        case = dict(base)
        if not same:
            case = world.gen_case(rng, "tiny")
            case["pf"] = base["pf"]
            case["initial"] = None
            case["baseline"] = base["baseline"]
        if rng.random() < 0.6:
            case["initial"] = world.gen_initial(rng, case)
        if rng.random() < 0.3:
            case["edy"] = r3(rng.uniform(0.1, 0.5))
        olist = []
        for _ in range(rng.choice([1, 1, 2, 3]) if not light else rng.choice([2, 4, 8])):
            k = rng.choice(KINDS if not light else LIGHT)
            op = {"op": k}
            if k in ("estimate", "evaluate", "query"):
                op["x"] = r3(ops.inner(case, rng.uniform(0.2, 0.8)))
                op["n"] = rng.choice([1, 3, 6])
            olist.append(op)
        threads.append({"case": case, "ops": olist})
    sw = []
    mode = rng.random()
    if mode < 0.35:
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            sw.append([rng.random(), 1, 0, rng.randrange(1 << 30)])
    elif mode < 0.8:
        for _ in range(rng.choice([1, 2, 4, 8])):
            sw.append([rng.random(), rng.choice([3, 10, 40, 150]), rng.choice([0, 1, 1, 2, 5, 17]), rng.randrange(1 << 30)])
    else:
        sw.append([0.0, 100000, rng.choice([1, 7, 40, 200]), rng.randrange(1 << 30)])
    focus = None
    r = rng.random()
    if r < 0.3:
        focus = {"functions": [rng.random() for _ in range(rng.choice([1, 2, 3, 6]))], "seed": rng.randrange(1 << 30),
                 "prob": rng.choice([0.03, 0.2, 0.5]), "most": rng.choice([30, 100, 300])}
    elif r < 0.7:
        focus = {"each": rng.choice([0.2, 1, 3, 8]), "seed": rng.randrange(1 << 30), "most": 20000}
    if focus is not None and rng.random() < 0.6:
        sw = sw[:1]
    return {"threads": threads, "switches": sorted(sw), "focus": focus, "shareddata": same and rng.random() < 0.7,
            "sharedbaseline": rng.random() < 0.8}


class Shared(object):
    """What the threads share."""

    def __init__(self, plan):
        case = plan["threads"][0]["case"]
        self.pfs = world.make_pfs(case["pf"])
        self.data = world.synth(case)
        b = world.make_baseline(case.get("baseline"))
        self.bfunc = b if b is None or isinstance(b, world.BaseFunction) else b.owner()
        self.errs = np.array([0.2, 0.5])

    def snap(self):
        return {"pf": [world.fsig(f) for f in self.pfs], "bf": world.fsig(self.bfunc),
                "data": world._plain(self.data), "errs": world._plain(self.errs),
                "flags": [a.flags.writeable for a in self.data]}


def baseline(spec, sh, shared):
    """The baseline of a thread, of the shared function if there is one."""
    if spec is None or not shared or sh.bfunc is None:
        return world.make_baseline(spec)
    if spec.get("pars") is None:
        return sh.bfunc
    return sh.bfunc.actualize(np.array(spec["pars"], dtype=float), "internal", free=spec.get("free"),
                              removable=spec.get("removable", False), static_owner=spec.get("static", False))


class Client(object):
    def __init__(self, plan, i, sh, scratch):
        self.plan, self.i, self.sh = plan, i, sh
        self.case = plan["threads"][i]["case"]
        self.ops = plan["threads"][i]["ops"]
        self.path = os.path.join(scratch, "t%d" % i)
        x, y = sh.data if plan["shareddata"] else world.synth(self.case)
        self.x, self.y = x, y
        self.where = None
        case = self.case
        ext = world.PDFPeakExtraction() if case["cls"] == "PDF" else world.PeakExtraction()
        ext.setdata(x, y, None, None if case.get("dy") is None else case["dy"] * np.ones(len(x)))
        kw = world.case_vars(dict(case, baseline=None), sh.pfs)
        b = baseline(case.get("baseline"), sh, plan["sharedbaseline"])
        if b is not None:
            kw["baseline"] = b
        ext.setvars(quiet=True, **kw)
        self.ext = ext

    def __call__(self):
        out = []
        for op in self.ops:
            self.where = op["op"]
            try:
                out.append(self.perform(op))
            except (world.SrMiseError, ValueError) as e:
                out.append("%s: %s" % (type(e).__name__, e))
        self.where = None
        return out

    def perform(self, op):
        k, e, sh = op["op"], self.ext, self.sh
        if k in ("extract", "fit"):
            r = ops.apply(e, op)
            return [world.snap_cov(r), world.result(e)]
        if k == "estimate":
            r = e.estimate_peak(op["x"], op["n"] > 3)
            return None if r is None else world.snap_part(r, world.Names())
        if k == "evaluate":
            out = []
            for f in sh.pfs:
                pars = f.transform_parameters([op["x"], 0.31, 1.5], "pwa", "internal")
                part = f.actualize(pars, "internal")
                for _ in range(op["n"]):
                    out.append(world._plain(np.asarray(part.value(self.x))))
                out.append(world._plain(np.asarray(f.transform_parameters(pars, "internal", "default_output"))))
                out.append(world._plain([np.asarray(j) for j in part.jacobian(self.x)
                                         if j is not None]))
                out.append(world._plain(np.asarray(f.estimate_parameters(self.x, np.abs(self.y) + 0.1))))
            if sh.bfunc is not None and self.case.get("baseline") and self.case["baseline"].get("pars"):
                out.append(world._plain(np.asarray(sh.bfunc.actualize(np.array(self.case["baseline"]["pars"], dtype=float), "internal").value(self.x))))
            return out
        if k == "cluster":
            m = world.make_peaks(self.case.get("initial") or [], sh.pfs)
            dy = 0.3 * np.ones(len(self.x))
            b = baseline(self.case.get("baseline"), sh, self.plan["sharedbaseline"])
            mc = world.ModelCluster(m, b if isinstance(b, world.ModelPart) else None, self.x, self.y, dy, None,
                                    world.AICc, list(sh.pfs))
            cov = world.ModelCovariance()
            mc.fit(fitbaseline=True, cov=cov)
            mc.prune()
            return [world.snap_mc(mc, data=False), world.snap_cov(cov), float(mc.quality().stat)]
        if k == "query":
            return self.query(op)
        if k == "savestr":
            return world.body(e.writestr())
        if k == "saveload":
            e.write(self.path)
            f = type(e)()
            f.read(self.path)
            return world.snap_ext(f)
        if k == "pdf":
            d = world.PDFDataSet("thread%d" % self.i)
            d.robs, d.Gobs = self.x, self.y
            d.drobs, d.dGobs = np.zeros(len(self.x)), 0.1 * np.ones(len(self.x))
            d.stype, d.qmax = "X", 20.0
            d.write(self.path + ".gr")
            g = world.PDFDataSet("read")
            g.read(self.path + ".gr")
            s = world.snap_pdf(g)
            s.pop("filename", None)
            return s
        if k == "multi":
            if not isinstance(e, world.PDFPeakExtraction) or e.baseline is None:
                return None
            ps = world.PeakStability()
            ps.setppe(e)
            ps.run(self.sh.errs)
            return world.snap_results(ps)
        if k == "cov":
            r = world.do_fit(e)
            return None if r is None else [str(r), world.snap_cov(r)]
        raise ValueError(k)

    def query(self, op):
        """Everything cheap which can be asked of a model, a clustering and an extraction."""
        e, sh = self.ext, self.sh
        out = []
        m = world.Peaks([f.actualize([op["x"] + 0.2 * i, 0.31, 1.5 + self.i], "pwa") for i, f in enumerate(sh.pfs)])
        b = baseline(self.case.get("baseline"), sh, self.plan["sharedbaseline"])
        b = b if isinstance(b, world.ModelPart) else None
        dy = (0.3 + 0.1 * self.i) * np.ones(len(self.x))
        for method in world.EVALUATORS.values():
            mc = world.ModelCluster(m.copy(), b, self.x, self.y, dy, slice(op["n"], None), method, list(sh.pfs))
            for _ in range(op["n"]):
                q = mc.quality()
                out.append([float(q.stat), float(q.chisq), bool(q.growth_justified(mc, 3)),
                            int(q.minpoints(3)), float(mc.quality(kshift=2).stat)])
            other = mc.copy()
            other.change_slice(slice(0, len(self.x) // 2))
            other.reduce_to(op["x"], 0.5)
            out.append([world.snap_mc(other, data=False), str(other), world._plain(other.residual()),
                        world._plain(other.plottable())])
            out.append(world.body(mc.writestr()))
        out.append(other.npars())
        free = [p.npars(count_fixed=False) for p in m]
        out.append(free)
        m.match_at(op["x"], 0.7)
        m.sort(key="position")
        out.append([world._plain(m.value(self.x)), [world._plain(p.pars) for p in m], world._plain(m.unpack_freepars())])
        cov = world.ModelCovariance()
        cov.setcovariance(m, np.diag(0.01 * (1 + np.arange(m.npars())) * (1 + self.i)))
        cov.transform("internal", "pwa")
        out.append([world.snap_cov(cov), str(cov)])
        d = DataClusters(self.x, self.y, 0.3)
        d.makeclusters()
        out.append([world._plain(d.clusters), [int(i) for i in np.concatenate(d.find_adjacent_clusters()).ravel()]
                    if len(d.find_adjacent_clusters()) else [], world._plain(d.cluster_boundaries()),
                    world._plain(d.find_nearest_cluster2(op["x"]))])
        e.defaultvars()
        out.append([e.getrangeslice().indices(len(self.x)), world.body(e.writestr())])
        if isinstance(e, world.PDFPeakExtraction):
            out.append(world._plain(list(e.resampledata(0.11 + 0.01 * self.i))))
            e.setvars(quiet=True, qmax=15.0 + self.i, cres=0.2)
            out.append([float(e.qmax), world._plain(e.errorscale(0.1))])
        return out


def schedule(plan, total):
    """(lines to run, pick) from the switches of the plan."""
    points = []
    for frac, n, gap, seed in plan["switches"]:
        rs = random.Random(subseed("schedule", seed))
        at = int(frac * total)
        for _ in range(n):
            points.append((at, rs.randrange(12)))
            at += 1 + rs.randint(0, 2 * gap)
            if at > 3 * total:
                break
    points.sort()
    now = 0
    yield 0, plan["switches"][0][3] if plan["switches"] else 0
    for at, pick in points:
        yield max(0, at - now), pick
        now = max(at, now)


def execute(plan, ctx):
    if not plan["threads"]:
        return
    n = len(plan["threads"])
    serial = []
    total = 0
    entered = {}
    with world.Silent():
        for i in range(n):
            c = Client(plan, i, Shared(plan), ctx.scratch)
            inj = instants.Injector(functions=entered)
            with inj:
                serial.append(c())
            total += inj.count
        sh = Shared(plan)
        before = sh.snap()
        cs = [Client(plan, i, sh, ctx.scratch) for i in range(n)]
        focus = None
        f = plan.get("focus")
        if f and entered:
            if "each" in f:
                # As often in lines executed rarely as in those executed often.
                probs = {k: min(0.5, f["each"] / v) for k, v in entered.items()}
            else:
                codes = list(dict.fromkeys(k[0] for k in entered))
                chosen = set(codes[int(a * len(codes))] for a in f["functions"])
                ctx.log("switching in", sorted(c.co_qualname for c in chosen))
                probs = {k: f["prob"] for k in entered if k[0] in chosen}
            focus = (probs, random.Random(subseed("focus", f["seed"])), f["most"])
        ch = world.srmiselog.ch
        lock, ch.lock = ch.lock, None
        try:
            th = Tracked(cs, schedule(plan, total), ctx, focus)
            results = th.run()
        finally:
            ch.lock = lock
    after = sh.snap()
    ctx.nontrivial = th.nswitch >= 2
    ctx.count("switches", th.nswitch)
    ctx.count("lines", th.ticks)
    for a in th.places[:60]:
        ctx.log(a)
    for i in range(n):
        kind, got = results[i]
        if kind == "raised":
            if isinstance(got, Exception):
                from sim.core import raised_in_code

                ctx.check(False, "thread-failed", "thread %d %r: %s: %s in %s" % (
                    i, plan["threads"][i]["ops"], type(got).__name__, got, raised_in_code(got)))
            raise got
        d = world.diff(serial[i], got)
        ctx.check(d is None, "thread-differs", lambda: "thread %d of %d, operations %s: alone and together differ at %s (%d switches, last %s)" % (
            i, n, [o["op"] for o in plan["threads"][i]["ops"]], d, th.nswitch, th.places[-3:]))
        ctx.log(i, got)
    d = world.diff(before, after)
    ctx.check(d is None, "shared-changed", lambda: "%s" % d)


class Tracked(instants.Threads):
    """Registers what is interrupted where."""

    def __init__(self, funcs, switches, ctx, focus):
        instants.Threads.__init__(self, funcs, switches, focus)
        self.ctx = ctx

    def switched(self, me, nxt, code):
        self.ctx.state(self.funcs[me].where, code.co_qualname, self.funcs[nxt].where)
