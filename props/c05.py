"""C05: a failing optimizer never corrupts a model or stops an extraction."""
import copy

import numpy as np

from sim import clusters, ops, optim, world
from sim.world import ModelCluster

QUICK_RUNS = 3000
THOROUGH_RUNS = 200000
LIMIT = 90
LEVEL = "exploration"
RULE = (
    "a run is either a history of up to 8 operations on a model cluster (fits of all variants, contingent fits, slices, "
    "removals, replacements, prunings, augmentations, reductions) or a whole extraction, fit or series of extractions, "
    "with optimizer calls failing at chosen positions (or all of them from one on); non-trivial: at least one optimizer "
    "fault fired; distinct by digest of the event log"
)
STATE_MEASURE = "(operation, fault kind and exception, outcome of the call) and (extraction mode, faults fired, result size)"
REAL = ["ModelCluster", "ModelParts", "peak and baseline functions", "PeakExtraction/PDFPeakExtraction", "PeakStability",
        "scipy leastsq (MINPACK) where it is not made to fail"]
STUB = ["entry of scipy.optimize.leastsq (Optimizer: failing calls, evaluations and Jacobians)", "clock"]
ASSUMPTIONS = ["the optimizer is reached through scipy.optimize.leastsq"]
SHRINK_LISTS = ("ops", "faults")


def generate(rng, tier):
    if rng.random() < 0.6:
        case = clusters.gen_cluster(rng, rng.choice(["tiny", "tiny", "tiny", "small", "small", "medium"]))
        olist = [clusters.gen_op(rng, case) for _ in range(rng.randint(1, 8))]
        plan = {"mode": "cluster", "case": case, "ops": olist}
        plan["faults"] = clusters.gen_faults(rng, olist, 0.05)
        plan["stalecov"] = rng.random() < 0.3
        return plan
    mode = rng.choice(["extract", "extract", "extract", "fit", "estimate", "stability"])
    cls = "PDF" if mode == "stability" else rng.choice(["PE", "PDF"])
    size = "tiny" if mode == "stability" else rng.choice(["tiny", "small", "small"] * 5 + ["medium"])
    case = world.gen_case(rng, size, cls=cls, want={"p_initial": 0.9 if mode == "fit" else 0.35})
    if mode == "stability" and (case["baseline"] is None or case["baseline"]["pars"] is None):
        case["baseline"] = {"kind": "poly", "degree": 0, "pars": [0.0], "free": [True]}
    plan = {"mode": mode, "case": case, "x": world.r3(ops.inner(case, rng.uniform(0.25, 0.75))), "faults": []}
    t = rng.random()
    if t < 0.3:
        f = optim.gen_fault(rng, rng.choice([0, 0, 1, 2, 4, 8, 16, 32, 64]))
        f["every"] = True
        plan["faults"].append(f)
    elif t < 0.6:
        p = rng.choice([0.05, 0.2, 0.5, 0.9])
        hi = rng.choice([6, 30, 150])
        for c in range(hi):
            if rng.random() < p:
                plan["faults"].append(optim.gen_fault(rng, c))
    else:
        for _ in range(rng.choice([1, 1, 2, 4])):
            plan["faults"].append(optim.gen_fault(rng, int(rng.expovariate(1 / 15.0))))
    if rng.random() < 0.5:
        # near the end: positions counted from the last call of an undisturbed run
        plan["tail"] = [optim.gen_fault(rng, rng.randrange(5)) for _ in range(rng.choice([1, 2]))]
    return plan


def execute(plan, ctx):
    if plan["mode"] == "cluster":
        return run_cluster(plan, ctx)
    return run_whole(plan, ctx)


def nofault(f):
    return "%s:%s" % (f["kind"], f.get("exc"))


def run_cluster(plan, ctx):
    src = clusters.Source(plan["case"])
    mc = src.cluster()
    seen = {}

    def observe(n, x0, fault):
        if seen.get("first") is None:
            seen["first"] = clusters.state(mc)
            seen["qual"] = float(mc.quality().stat)

    opt = optim.activate(optim.Optimizer(ctx, observe=observe))
    stale = None
    for i, op in enumerate(plan["ops"]):
        seen.clear()
        opt.start_op([f for f in plan["faults"] if f["op"] == i])
        before = clusters.state(mc)
        nf = len(opt.fired)
        work = {}
        if plan["stalecov"] and stale is not None:
            work["stale"] = stale
        try:
            r = clusters.apply(src, mc, op, work)
        except (ValueError, world.SrMiseError) as e:
            if op["op"] in ("delete", "replace"):  # protected peaks
                ctx.log(i, op["op"], "refused")
                continue
            raise
        fired = opt.fired[nf:]
        after = clusters.state(mc)
        k = op["op"]
        what = lambda: "operation %d %r, optimizer outcomes %s, faults fired %s" % (i, op, opt.outcomes[-5:], fired)
        if k in ("fit", "contfit"):
            stat = None if r is None else float(r.stat)
            if seen:
                if opt.failed():
                    ctx.check(r is None, "failed-fit-reported-as-success", what)
                if r is None:
                    d = world.diff(seen["first"], after)
                    ctx.check(d is None, "model-changed-by-failed-fit", lambda: "%s: %s" % (what(), d))
                else:
                    ctx.check(np.isfinite(stat), "fit-accepted-undefined-quality", lambda: "%s: %s" % (what(), stat))
                    ctx.check(stat <= seen["qual"], "fit-accepted-worse-model",
                              lambda: "%s: %s after %s" % (what(), stat, seen["qual"]))
                if "cov" in work and not opt.failed():
                    cov = work["cov"]
                    if opt.outcomes[-1][1]:
                        ctx.check(cov.cov is None, "stale-covariance", what)
                        ctx.probe("singular covariance")
                    else:
                        ctx.check(cov.cov is not None, "covariance-missing", what)
                        f = world.cov_fault(cov)
                        ctx.check(f is None, "wrong-covariance", lambda: "%s: %s" % (what(), f))
                        stale = cov
            elif r is None and len(before["model"]):
                d = world.diff(before, after)
                ctx.check(d is None, "model-changed-without-fit", lambda: "%s: %s" % (what(), d))
        elif k == "reduce" and seen and r is None:
            d = world.diff(before, after)
            ctx.check(d is None, "model-changed-by-failed-reduction", lambda: "%s: %s" % (what(), d))
        usable_cluster(ctx, mc, before, what)
        for f in fired:
            ctx.state(k, f[1], opt.failed(), r is None)
        ctx.log(i, k, len(mc.model), fired, opt.outcomes[-1:], None if r is None else repr(r)[:0])
    ctx.log("end", clusters.state(mc))


def usable_cluster(ctx, mc, before, what):
    ctx.check(world.finite(mc.model), "parameters-not-finite", lambda: "%s: %s" % (what(), clusters.state(mc)))
    if mc.baseline is not None:
        ctx.check(world.finite([mc.baseline]), "baseline-not-finite", what)
    ctx.check(world.sorted_positions(mc.model), "peaks-not-sorted", lambda: "%s: %s" % (what(), clusters.state(mc)))
    mc.quality()
    str(mc)


def run_whole(plan, ctx):
    case = plan["case"]
    mode = plan["mode"]
    faults = list(plan["faults"])
    if plan.get("tail"):
        clean = optim.activate(optim.Optimizer(ctx))
        perform(mode, world.make_extraction(case), plan, ctx)
        for f in plan["tail"]:
            f = dict(f, call=max(0, clean.calls - 1 - f["call"]))
            faults.append(f)
        ctx.log("clean", clean.calls)
    opt = optim.activate(optim.Optimizer(ctx))
    opt.start_op(faults)
    ext = world.make_extraction(case)
    data = world.snap_ext(ext)
    what = lambda: "%s with %s, fired %s" % (mode, case["cls"], opt.fired[:6])
    r = perform(mode, ext, plan, ctx)
    optim.deactivate()
    n = len(opt.fired)
    if mode == "stability":
        ctx.check(len(r.results) == 2, "results-missing", what)
        for res in r.results:
            ctx.check(world.finite(res[1]), "parameters-not-finite", what)
            ctx.check(world.sorted_positions(res[1]), "peaks-not-sorted", what)
        ctx.log(mode, opt.calls, opt.fired, world.snap_results(r))
        ctx.state(mode, min(n, 20), [len(x[1]) for x in r.results])
        return
    if mode == "estimate":
        if r is not None:
            ctx.check(np.isfinite(r.pars).all(), "parameters-not-finite", what)
        ctx.log(mode, opt.calls, opt.fired, world.snap_parts(ext.initial_peaks))
        return
    want = {"extract": "extract", "fit": "fit"}[mode] + ("_single" if case["cls"] == "PE" else "")
    ctx.check(ext.extraction_type == want, "extraction-type", lambda: "%s: %r" % (what(), ext.extraction_type))
    mc = ext.extracted
    ctx.check(isinstance(mc, ModelCluster), "no-result", what)
    usable(ctx, ext, mc, what)
    failed = opt.failed()
    if mode == "extract" or (mode == "fit" and len(data["initial_peaks"] or [])):
        if opt.outcomes and failed:
            ctx.check(r.cov is None, "stale-covariance", what)
    f = world.cov_fault(r)
    ctx.check(f is None, "wrong-covariance", lambda: "%s: %s" % (what(), f))
    ctx.state(mode, case["cls"], min(n, 30), len(mc.model), failed)
    ctx.log(mode, opt.calls, opt.fired, world.snap_mc(mc), None if r.cov is None else world._plain(np.asarray(r.cov)))


def perform(mode, ext, plan, ctx):
    if mode == "extract":
        return world.do_extract(ext)
    if mode == "fit":
        return world.do_fit(ext)
    if mode == "estimate":
        return ext.estimate_peak(plan["x"])
    ps = world.PeakStability()
    ps.setppe(ext)
    with world.Silent():
        ps.run([0.2, 0.5])
    return ps


def usable(ctx, ext, mc, what):
    ctx.check(world.finite(mc.model), "parameters-not-finite", lambda: "%s: %s" % (what(), clusters.state(mc)))
    ctx.check(mc.baseline is None or world.finite([mc.baseline]), "baseline-not-finite", what)
    ctx.check(world.sorted_positions(mc.model), "peaks-not-sorted", lambda: "%s: %s" % (what(), clusters.state(mc)))
    lo, hi, st = mc.slice.indices(len(mc.r_data))
    ctx.check((lo, hi, st) == (0, len(mc.r_data), 1), "not-full-range", lambda: "%s: %s" % (what(), mc.slice))
    x = ext.x[(ext.x >= ext.rng[0]) & (ext.x <= ext.rng[1])]
    tol = 2.01 * max(x[1] - x[0], mc.r_data[1] - mc.r_data[0])
    ctx.check(abs(mc.r_data[0] - x[0]) <= tol and abs(mc.r_data[-1] - x[-1]) <= tol, "not-full-range",
              lambda: "%s: %s..%s of %s..%s" % (what(), mc.r_data[0], mc.r_data[-1], x[0], x[-1]))
    n = len(mc.r_data)
    ctx.check(len(mc.y_data) == n and len(mc.y_error) == n and mc.size == n, "not-full-range", what)
    v = np.asarray(mc.value())
    ctx.check(v.shape == (n,) and np.isfinite(v).all(), "value-not-finite", what)
    mc.quality()
    str(mc)
    text = mc.writestr()
    back = ModelCluster.factory(text)
    d = world.diff(clusters.state(mc)["model"], clusters.state(back)["model"])
    ctx.check(d is None, "result-not-writable", lambda: "%s: %s" % (what(), d))
