"""Operations on peak extractions, described by JSON, shared by several properties."""
import numpy as np

from sim import world
from sim.world import BaseFunction, PDFPeakExtraction, PeakExtraction, r3


def gen_set(rng, case):
    """Arguments for setvars, as a description."""
    out = {}
    k = rng.choice(["edy", "cres", "rng", "em", "baseline", "initial", "pf", "pdf", "edyarr"])
    x0, span = case["x0"], case["dx"] * (case["n"] - 1)
    if k == "edy":
        out["edy"] = r3(rng.uniform(0.05, 0.6))
    elif k == "edyarr":
        out["edyarr"] = [r3(rng.uniform(0.05, 0.6)), r3(rng.uniform(0.0, 0.3))]
        t = rng.random()
        if t < 0.3:
            out["edytype"] = "list" if t < 0.2 else "tuple"
    elif k == "cres":
        out["cres"] = r3(rng.uniform(1.5, 5) * case["dx"])
    elif k == "rng":
        lo, hi = x0 + rng.uniform(0, 0.25) * span, x0 + rng.uniform(0.75, 1) * span
        out["rng"] = [rng.choice([None, r3(lo)]), rng.choice([None, r3(hi)])]
        if rng.random() < 0.3:
            out["rngtype"] = rng.choice(["tuple", "array"])
    elif k == "em":
        out["em"] = rng.choice(["AIC", "AICc"])
    elif k == "baseline":
        c = dict(case)
        out["baseline"] = world.gen_baseline(rng, c)
    elif k == "initial":
        out["initial"] = world.gen_initial(rng, case)
    elif k == "pf":
        out["pf"] = [[rng.choice(["Gaussian", "GaussianOverR"]), r3(rng.uniform(0.5, 1.5))] for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < 0.2:
            out["pf"].append(["TerminationRipples", 0, r3(rng.uniform(8, 20))])
        if len(out["pf"]) > 1 and rng.random() < 0.5:
            out["pforder"] = gen_order(rng, len(out["pf"]))
    elif case["cls"] == "PDF":
        j = rng.choice(["qmax", "nyquist", "supersample", "scale"])
        out[j] = {
            "qmax": lambda: rng.choice([0.0, r3(np.pi / (case["dx"] * rng.uniform(1.0, 1.8)))]),
            "nyquist": lambda: rng.random() < 0.5,
            "supersample": lambda: r3(rng.uniform(1.0, 2.5)),
            "scale": lambda: rng.random() < 0.5,
        }[j]()
    else:
        out["edy"] = 0.3
    return out


def gen_order(rng, n):
    """Order in which made functions are listed; some may be left out."""
    order = rng.sample(range(n), n)
    return order[: rng.randint(1, n)] if rng.random() < 0.3 else order


def set_kwds(ext, spec):
    kw = {}
    for k, v in spec.items():
        if k == "edy":
            kw["effective_dy"] = v
        elif k == "edyarr":
            n = len(ext.x)
            kw["effective_dy"] = v[0] + v[1] * np.arange(n) / n
            if spec.get("edytype"):
                kw["effective_dy"] = (list if spec["edytype"] == "list" else tuple)(kw["effective_dy"].tolist())
        elif k == "rng":
            t = spec.get("rngtype")
            if t == "tuple":
                v = tuple(v)
            elif t == "array":
                v = np.array([ext.x[0] if v[0] is None else v[0], ext.x[-1] if v[1] is None else v[1]])
            kw["rng"] = v
        elif k in ("rngtype", "edytype", "pforder"):
            pass
        elif k == "em":
            kw["error_method"] = world.EVALUATORS[v]
        elif k == "baseline":
            kw["baseline"] = world.make_baseline(v)
        elif k == "pf":
            kw["pf"] = world.in_order(world.make_pfs(v), spec.get("pforder"))
        elif k == "initial":
            pfs = ext.pf or world.make_pfs([["Gaussian", 5.0]])
            kw["initial_peaks"] = world.make_peaks([[p[0] % len(pfs)] + p[1:] for p in v], pfs)
        else:
            kw[k] = v
    return kw


def inner(case, frac):
    """A position within the range of the case."""
    return case["x0"] + frac * case["dx"] * (case["n"] - 1)


def gen_op(rng, case, kinds=("extract", "fit", "set", "estimate", "addpeak")):
    k = rng.choice(kinds)
    op = {"op": k}
    if k == "set":
        op["vars"] = gen_set(rng, case)
    elif k == "estimate":
        op["x"] = r3(inner(case, rng.uniform(0.05, 0.95)))
        op["add"] = rng.random() < 0.8
    elif k == "addpeak":
        op["peak"] = [0, r3(inner(case, rng.uniform(0.1, 0.9))), r3(4 * case["dx"]), r3(rng.uniform(0.2, 2)),
                      [rng.random() < 0.8 for _ in range(3)], rng.random() < 0.7, rng.random() < 0.3]
    return op


def apply(ext, op):
    """Perform op; returns what the call returned."""
    k = op["op"]
    if k == "extract":
        return world.do_extract(ext)
    if k == "extract_single":
        return ext.extract_single()
    if k == "fit":
        return world.do_fit(ext)
    if k == "fit_single":
        return ext.fit_single()
    if k == "set":
        return ext.setvars(quiet=True, **set_kwds(ext, op["vars"]))
    if k == "default":
        return ext.defaultvars()
    if k == "estimate":
        return ext.estimate_peak(op["x"], op["add"])
    if k == "addpeak":
        pfs = ext.pf or world.make_pfs([["Gaussian", 5.0]])
        return ext.add_peaks(world.make_peaks([op["peak"]], pfs))
    if k == "clearcalc":
        return ext.clearcalc()
    raise ValueError(op)
