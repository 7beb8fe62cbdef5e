"""C06: fitting, pruning and augmenting never make a model worse."""
import numpy as np

from sim import clusters, ops, optim, world
from sim.core import SkipRun
from sim.world import ModelCluster, r3

QUICK_RUNS = 3000
THOROUGH_RUNS = 200000
LIMIT = 90
LEVEL = "exploration"
RULE = (
    "a run is a history of up to 8 operations on a model cluster with optimizer faults in its fits, prunings and "
    "augmentations, the quality of the model being computed independently before and after each; or a recovery: "
    "noise-free data, start parameters nearby, fits with failing optimizer, then one with a working optimizer; "
    "non-trivial: at least one operation was judged; distinct by digest of the event log"
)
STATE_MEASURE = "(operation, fault kinds fired, peaks before and after) and (recovery route, functions, baseline)"
REAL = ["ModelCluster", "ModelParts", "peak and baseline functions", "model evaluators", "scipy leastsq where not made to fail"]
STUB = ["entry of scipy.optimize.leastsq", "clock"]
ASSUMPTIONS = [
    "the optimizer is reached through scipy.optimize.leastsq",
    "recovery is required for peaks at least 2.5 widths apart, sampled by at least 4 points per width, from parameters within 15%",
]
SHRINK_LISTS = ("ops", "faults", "steps")
JUDGED = ("fit", "contfit", "prune", "augment")


def generate(rng, tier):
    t = rng.random()
    if t < 0.12:
        return gen_grow(rng)
    if t < 0.68:
        case = clusters.gen_cluster(rng, rng.choice(["tiny", "tiny", "small"]))
        if rng.random() < 0.15:
            case["pf"].append(["TerminationRipples", 0, r3(rng.uniform(10, 25))])
        kinds = clusters.KINDS + ("prune", "augment", "fit")
        olist = [clusters.gen_op(rng, case, kinds) for _ in range(rng.randint(1, 8))]
        return {"mode": "history", "case": case, "ops": olist, "faults": clusters.gen_faults(rng, olist, 0.3)}
    return gen_recovery(rng)


def gen_grow(rng):
    """A cluster in weak data, whose extent changes."""
    n = rng.choice([12, 25, 40])
    lo = rng.randrange(n - 3)
    hi = rng.randint(lo + 2, n - 1)
    y = [r3(rng.gauss(0, 0.35)) for _ in range(n)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        y[rng.randrange(n)] = r3(rng.uniform(0.9, 2.5))
    steps = []
    for _ in range(rng.randint(2, 10)):
        k = rng.choice(["left", "left", "right", "right", "both", "shrink", "fit", "copy", "none"])
        steps.append([k, rng.choice([1, 1, 2, 5]), rng.choice([1, 1, 3])])
    return {"mode": "grow", "y": y, "dy": [r3(rng.uniform(0.6, 1.2)) for _ in range(n)], "start": [lo, hi], "steps": steps,
            "baseline": rng.choice([None, [0.0], [-0.4], [0.3]]), "em": rng.choice(["AIC", "AICc"])}


def grow(plan, ctx):
    """A cluster is passed over as insignificant only while none of its points rises above its uncertainty."""
    n = len(plan["y"])
    x = 1.0 + 0.1 * np.arange(n)
    y, dy = np.array(plan["y"]), np.array(plan["dy"])
    bl, level = None, 0.0
    if plan["baseline"] is not None:
        level = plan["baseline"][0]
        bl = world.Polynomial(degree=0).actualize(np.array(plan["baseline"]), "internal", free=[False])
    lo, hi = plan["start"]
    mc = world.ModelCluster(None, bl, x, y, dy, slice(lo, hi), world.EVALUATORS[plan["em"]], [world.Gaussian(0.7)])
    seen = set(range(lo, hi))  # points ever in the cluster
    above = y - level - dy
    opt = optim.activate(optim.Optimizer(ctx))
    for i, (k, a, b) in enumerate([["none", 0, 0]] + plan["steps"]):
        if k in ("left", "both"):
            lo = max(0, lo - a)
        if k in ("right", "both"):
            hi = min(n, hi + b)
        if k == "shrink" and hi - lo > a + 2:
            lo, hi = (lo + a, hi) if b > 1 else (lo, hi - a)
        if k in ("left", "right", "both", "shrink"):
            mc.change_slice(slice(lo, hi))
        elif k == "copy":
            mc = mc.copy()
        seen |= set(range(lo, hi))
        what = "step %d %s: points %d to %d of %s" % (i, k, lo, hi, [round(float(v), 3) for v in above])
        here = any(above[j] > 1e-9 for j in range(lo, hi))
        ever = any(above[j] >= -1e-9 for j in seen)
        ctx.check(not (mc.never_fit and here), "significant-cluster-skipped", what)
        ctx.check(mc.never_fit or ever, "insignificant-cluster-not-skipped", what)
        if k == "fit":
            calls = opt.calls
            with world.Silent():
                mc.fit(estimate=b > 1)
            ctx.check(not mc.never_fit or opt.calls == calls, "insignificant-cluster-fit", what)
            if not mc.never_fit and b > 1 and hi - lo > 6 and any(above[j] > 1e-9 for j in range(lo, hi)):
                ctx.probe("significant-cluster-fit")
        ctx.nontrivial = True
        ctx.log(i, k, lo, hi, bool(mc.never_fit), len(mc.model))
    ctx.state("grow", bool(mc.never_fit), plan["baseline"], [s[0] for s in plan["steps"]][:2])


def gen_recovery(rng):
    dx = rng.choice([0.05, 0.08, 0.1])
    pf = rng.choice([["Gaussian", r3(14 * dx)], ["GaussianOverR", r3(14 * dx)]])
    x0 = r3(rng.uniform(0.8, 3))
    pos = x0
    peaks, start = [], []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        fwhm = rng.uniform(4, 9) * dx
        pos += fwhm * rng.uniform(1.5, 2.2)
        area = rng.uniform(0.5, 5.0)
        free = [rng.random() < 0.85 for _ in range(3)]
        p = [0, r3(pos), r3(fwhm), r3(area), free, rng.random() < 0.7, rng.random() < 0.2]
        peaks.append(p)
        s = list(p)
        if free[0]:
            s[1] = p[1] + rng.uniform(-0.12, 0.12) * fwhm
        if free[1]:
            s[2] = p[2] * rng.uniform(0.87, 1.13)
        if free[2]:
            s[3] = p[3] * rng.uniform(0.85, 1.15)
        start.append(s)
        pos += fwhm * rng.uniform(1.5, 2.2)
    whole = rng.random() < 0.12
    if whole:
        # Whole numbers to start with, as one types them
        dx, x0, pos = 1.0, float(rng.randint(1, 5)), 5.0
        pf = [pf[0], 14.0]
        for p, s in zip(peaks, start):
            w = rng.randint(4, 8)
            pos += int(2 * w)
            s[1:4] = [int(pos), w, rng.randint(2, 9)]
            p[1:4] = [r3(v + rng.uniform(-0.12, 0.12) * (w if i == 0 else v)) if p[4][i] else float(v) for i, v in enumerate(s[1:4])]
            pos += int(2 * w)
    n = int((pos - x0) / dx) + 2
    n = max(n, 40)
    t = rng.random()
    if t < 0.2:
        base = None
    elif t < 0.6:
        deg = rng.choice([0, 1, 1, 2])
        pars = [r3(rng.uniform(-0.3, 0.3)) for _ in range(deg + 1)]
        base = {"kind": "poly", "degree": deg, "pars": pars, "free": [rng.random() < 0.8 for _ in pars],
                "static": rng.random() < 0.2}
    elif t < 0.8:
        # With a free radius fits have other minima.
        base = {"kind": "nano", "pars": [r3(rng.uniform(0.02, 0.3)), r3((x0 + n * dx) * rng.uniform(0.7, 1.5))],
                "free": [rng.random() < 0.8, False]}
    else:
        base = {"kind": "seq", "x": [r3(x0 - 0.3 + (n * dx + 0.6) * i / 4.0) for i in range(5)],
                "y": [r3(rng.uniform(-0.5, 0.5)) for _ in range(5)], "pars": []}
    bstart = None
    if base is not None:
        bstart = dict(base)
        bstart["pars"] = [
            v * rng.uniform(0.9, 1.1) + (rng.uniform(-0.02, 0.02) if base["kind"] == "poly" else 0) if f else v
            for v, f in zip(base["pars"], base.get("free") or [])
        ]
    if whole and t < 0.6 and base is not None:
        deg = len(base["pars"]) - 1
        bstart["pars"] = [0] * deg + [rng.randint(-1, 1)]
        base["pars"] = [v + r3(rng.uniform(-0.02, 0.02)) * 40.0 ** (i - deg) if f else float(v)
                        for i, (v, f) in enumerate(zip(bstart["pars"], base["free"]))]
    route = rng.choice(["cluster", "cluster", "cluster", "fit_single", "fit"])
    olist = []
    if route == "cluster":
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            f = optim.gen_fault(rng, 0, ["raise", "eval", "eval", "jac", "maxfev", "ier", "singular"])
            if f.get("exc") == "NotImplementedError":
                f["exc"] = "ValueError"
            # Fits which succeed with a wrong, fixed baseline may rightly lead away.
            fb = bstart is not None and bstart["pars"] != base["pars"] or rng.random() < 0.5
            olist.append({"baseline": fb, "cov": rng.random() < 0.5, "fault": f})
    return {
        "mode": "recover", "x0": x0, "dx": dx, "n": n, "pf": [pf], "em": rng.choice(["AIC", "AICc"]), "route": route,
        "ripples": r3(rng.uniform(12, 25)) if route == "cluster" and rng.random() < 0.15 else None,
        "err": rng.choice([0.01, 0.1]) * (0.03 if whole else 1), "peaks": peaks, "start": start, "base": base, "bstart": bstart, "ops": olist,
        "faults": [],
    }


def stat(mc):
    """Quality of the model by the published formula, from values of the parts alone."""
    r = np.asarray(mc.r_data)
    total = np.zeros(len(r))
    for p in mc.model:
        total = total + np.asarray(p.value(r, mc.slice))
    if mc.baseline is not None:
        total = total + np.asarray(mc.baseline.value(r, mc.slice))
    sl = mc.slice
    chisq = float((((np.asarray(mc.y_data)[sl] - total[sl]) / np.asarray(mc.y_error)[sl]) ** 2).sum())
    k = int(sum(int(np.sum(p.free)) for p in mc.model))
    n = len(r[sl])
    if mc.error_method is world.AICc:
        n = max(n, k + 2)
        return chisq + 2.0 * k + 2.0 * k * (k + 1) / (n - k - 1)
    return chisq + 2.0 * k


def close(a, b, rel=1e-8):
    return abs(a - b) <= rel * (1 + abs(a) + abs(b))


def execute(plan, ctx):
    if plan["mode"] == "grow":
        return grow(plan, ctx)
    if plan["mode"] == "recover":
        return recover(plan, ctx)
    src = clusters.Source(plan["case"])
    mc = src.cluster()
    opt = optim.activate(optim.Optimizer(ctx))
    for i, op in enumerate(plan["ops"]):
        opt.start_op([f for f in plan["faults"] if f["op"] == i])
        before = clusters.state(mc)
        s0 = stat(mc)
        nf = len(opt.fired)
        work = {}
        try:
            r = clusters.apply(src, mc, op, work)
        except (ValueError, world.SrMiseError):
            if op["op"] in ("delete", "replace"):
                continue
            raise
        fired = opt.fired[nf:]
        k = op["op"]
        s1 = stat(mc)
        n0, n1 = len(before["model"]), len(mc.model)
        what = lambda: "operation %d %r (%s -> %s peaks), faults fired %s" % (i, op, n0, n1, fired[:5])
        q = mc.quality()
        ctx.check(close(float(q.stat), s1), "quality-misreported", lambda: "%s: %s, really %s" % (what(), q.stat, s1))
        if k in JUDGED:
            ctx.nontrivial = True
            if n0 or k != "fit" and k != "contfit":
                ctx.check(s1 <= s0 or close(s0, s1, 1e-7), "%s-made-worse" % k, lambda: "%s: quality %s after %s" % (what(), s1, s0))
            if k in ("fit", "contfit") and r is not None:
                ctx.check(float(r.stat) == float(q.stat) and float(r.chisq) == float(q.chisq), "reported-quality",
                          lambda: "%s: %s, model left has %s" % (what(), r.stat, q.stat))
            if k == "prune":
                ctx.check(n1 <= n0, "prune-added-peaks", what)
                if n1 < n0:
                    ctx.probe("pruned")
            if k in ("fit", "contfit") and n0:
                ctx.check(n1 <= n0, "fit-added-peaks", what)
            if k == "augment" and n1 > n0:
                ctx.probe("augmented")
            ctx.state(k, sorted(set(f[1] for f in fired)), min(n0, 6), min(n1, 6))
        ctx.log(i, k, s1, fired[:10])
    ctx.log("end", clusters.state(mc))


def recover(plan, ctx):
    ctx.nontrivial = True
    pfs = world.make_pfs(plan["pf"])
    x = plan["x0"] + plan["dx"] * np.arange(plan["n"])
    truth = world.make_peaks(plan["peaks"], pfs)
    start = world.make_peaks(plan["start"], pfs)
    base, bstart = world.make_baseline(plan["base"]), world.make_baseline(plan["bstart"])
    if plan.get("ripples"):
        tr = world.TerminationRipples(pfs[0], plan["ripples"])
        for p in list(truth) + list(start):
            if not p.static_owner:
                p.changeowner(tr)
    y = sum((np.asarray(p.value(x)) for p in truth), np.zeros(len(x)))
    if base is not None:
        y = y + np.asarray(base.value(x))
    err = plan["err"] * np.ones(len(x))
    if max(y - (0.0 if bstart is None else np.asarray(bstart.value(x))) - err) < 0:
        # Data which nowhere rise above baseline and error are never fitted, by design.
        raise SkipRun("no data above the baseline")
    em = world.EVALUATORS[plan["em"]]
    opt = optim.activate(optim.Optimizer(ctx))
    if plan["route"] == "cluster":
        mc = ModelCluster(start, bstart, x, y, err, None, em, pfs)
        for op in plan["ops"]:
            opt.start_op([op["fault"]])
            s0 = stat(mc)
            mc.fit(fitbaseline=op["baseline"], cov=world.ModelCovariance() if op["cov"] else None)
            s1 = stat(mc)
            ctx.check(s1 <= s0 or close(s0, s1), "fit-made-worse", lambda: "%r: quality %s after %s" % (op, s1, s0))
        opt.start_op([])
        for _ in range(2):
            mc.fit(fitbaseline=True)
    else:
        ext = world.PDFPeakExtraction() if plan["route"] == "fit" else world.PeakExtraction()
        ext.setdata(x, y, None, None)
        kw = dict(pf=pfs, cres=3 * plan["dx"], effective_dy=err, error_method=em, initial_peaks=start)
        if bstart is not None:
            kw["baseline"] = bstart
        if plan["route"] == "fit":
            kw.update(qmax=0.0, nyquist=False)
        ext.setvars(quiet=True, **kw)
        for _ in range(2):
            world.do_fit(ext)
            ext.setvars(quiet=True, initial_peaks=ext.extracted.model.copy(), baseline=ext.extracted.baseline)
        mc = ext.extracted
    got = sum((np.asarray(p.value(x)) for p in mc.model), np.zeros(len(x)))
    if mc.baseline is not None:
        got = got + np.asarray(mc.baseline.value(x))
    what = lambda: "%s by %s: %s, truth %s, baseline %s, truth %s" % (
        [type(p.owner()).__name__ for p in mc.model], plan["route"], [list(map(float, p.pars)) for p in mc.model],
        [list(map(float, p.pars)) for p in truth], mc.baseline, base)
    scale = float(np.max(np.abs(y)))
    ctx.check(len(mc.model) == len(truth), "peaks-not-recovered", what)
    dev = float(np.max(np.abs(got - y)))
    ctx.check(dev <= 2e-4 * scale, "data-not-recovered", lambda: "deviation %g of %g: %s" % (dev, scale, what()))
    for p, t in zip(mc.model, truth):
        a = np.asarray(p.owner().transform_parameters(p.pars, "internal", "mu_sigma_area"), dtype=float)
        b = np.asarray(t.owner().transform_parameters(t.pars, "internal", "mu_sigma_area"), dtype=float)
        ok = abs(a[0] - b[0]) < 2e-3 and abs(a[1] - b[1]) <= 5e-3 * b[1] and abs(a[2] - b[2]) <= 5e-3 * b[2]
        ctx.check(ok, "peaks-not-recovered", what)
    ctx.state("recover", plan["route"], [type(p.owner()).__name__ for p in mc.model],
              None if base is None else (type(base.owner()).__name__, [bool(v) for v in base.free]))
    ctx.log("recover", plan["route"], clusters.state(mc))
