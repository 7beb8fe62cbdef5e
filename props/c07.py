"""C07: fixed parameters, protected peaks and static owners are preserved."""
import json

import numpy as np

from sim import clusters, disk, ops, optim, world
from sim.world import SrMiseStaticOwnerError, r3

QUICK_RUNS = 2500
THOROUGH_RUNS = 200000
LIMIT = 90
LEVEL = "exploration"
RULE = (
    "a run is a history of up to 10 operations on a model cluster, or of up to 5 extractions, fits, estimates, additions, "
    "saves, loads and feedbacks of results as initial peaks on an extraction object, with random free/removable/static "
    "flags and optimizer faults; non-trivial: a flagged part went through a model-changing operation; distinct by digest "
    "of the event log"
)
STATE_MEASURE = "(operation, flags present before it, faults fired)"
REAL = ["ModelCluster", "ModelParts/ModelPart", "Peaks", "PeakExtraction/PDFPeakExtraction", "MultimodelSelection runs",
        "scipy leastsq where not made to fail"]
STUB = ["entry of scipy.optimize.leastsq", "raw file layer (SimDisk)", "clock"]
ASSUMPTIONS = ["rounding of a fixed parameter by the conversion between formats (1e-9 relative) is not a change"]
SHRINK_LISTS = ("ops", "faults")


def flag(rng, p):
    """Make it likely that something about the peak is protected."""
    p[4] = [rng.random() < 0.6 for _ in range(3)]
    p[5] = rng.random() < 0.5
    p[6] = rng.random() < 0.4
    return p


def generate(rng, tier):
    if rng.random() < 0.6:
        case = clusters.gen_cluster(rng, rng.choice(["tiny", "tiny", "tiny", "small", "small", "medium"]))
        for p in case["start"]:
            flag(rng, p)
        kinds = [k for k in clusters.KINDS if k != "estimatepeak"] + ["prune", "prune", "augment", "owner", "reduce"]
        olist = []
        for _ in range(rng.randint(1, 10)):
            k = rng.choice(kinds)
            if k == "owner":
                olist.append({"op": k, "idx": rng.randrange(6), "pf": rng.choice(["other", "same", "nano"]),
                              "baseline": rng.random() < 0.3})
            else:
                op = clusters.gen_op(rng, case, (k,))
                for p in op.get("peaks", []):
                    if rng.random() < 0.5:
                        flag(rng, p)
                olist.append(op)
        return {"mode": "cluster", "case": case, "ops": olist, "faults": clusters.gen_faults(rng, olist, 0.4)}
    case = world.gen_case(rng, rng.choice(["tiny", "tiny", "small"] * 7 + ["medium"]), want={"p_initial": 1.0})
    case["initial"] = [flag(rng, p) for p in case.get("initial") or []]
    if rng.random() < 0.3:
        case["initial"].append(flag(rng, clusters.gen_peak(rng, case)))
        case["initial"].sort(key=lambda p: p[1])
    if case["baseline"] is not None and case["baseline"].get("pars"):
        case["baseline"]["static"] = rng.random() < 0.5
        case["baseline"]["removable"] = rng.random() < 0.5
    olist = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(["extract", "extract", "extract", "fit", "fit", "estimate", "addpeak", "saveload", "feedback",
                        "stability", "delete"])
        op = {"op": k}
        if k in ("estimate", "addpeak"):
            op = ops.gen_op(rng, case, (k,))
            if k == "estimate":
                op["x"] = r3(ops.inner(case, rng.uniform(0.3, 0.7)))
            elif rng.random() < 0.7:
                flag(rng, op["peak"])
        elif k == "delete":
            op["idx"] = rng.randrange(4)
        olist.append(op)
    faults = []
    if rng.random() < 0.5:
        for i, op in enumerate(olist):
            if rng.random() < 0.25:
                f = optim.gen_fault(rng, rng.choice([0, 1, 3, 10, 30]))
                f.update(op=i, every=True)
                faults.append(f)
            else:
                for _ in range(rng.choice([0, 1, 3, 10])):
                    f = optim.gen_fault(rng, int(rng.expovariate(1 / 15.0)))
                    f["op"] = i
                    faults.append(f)
    return {"mode": "extraction", "case": case, "ops": olist, "faults": faults}


# --- protection of parts -----------------------------------------------------


def canonical(p, v):
    """Negative parameters of a NanoSpherical mean their positive equivalents, to which fits map them (documented)."""
    return abs(v) if type(p.owner()).__name__ == "NanoSpherical" else v


class Guard(object):
    """Signatures of what is protected about parts."""

    def __init__(self):
        self.sigs = {}
        self.keep = []

    def fname(self, f):
        if id(f) not in self.sigs:
            self.keep.append(f)
            self.sigs[id(f)] = json.dumps(world.fsig(f))
        return self.sigs[id(f)]

    def part(self, p):
        free = [bool(v) for v in p.free]
        return {
            "free": free,
            "removable": bool(p.removable),
            "static": bool(p.static_owner),
            "fixed": [canonical(p, float(v)) for v, f in zip(p.pars, free) if not f],
            "owner": self.fname(p.owner()) if p.static_owner else None,
        }

    def parts(self, ps):
        return [self.part(p) for p in ps]


def same(a, b):
    if any(a[k] != b[k] for k in ("free", "removable", "static", "owner")):
        return False
    return all(abs(u - v) <= 1e-9 * (1e-3 + abs(u)) for u, v in zip(a["fixed"], b["fixed"]))


def missing(need, have):
    """The first of need which has no partner of its own in have."""
    have = list(have)
    for a in need:
        for i, b in enumerate(have):
            if same(a, b):
                del have[i]
                break
        else:
            return a
    return None


def protected(ps):
    return [p for p in ps if not p["removable"]]


def special(ps):
    """Peaks which an extraction cannot have invented."""
    return [p for p in ps if p["fixed"] or p["static"] or not p["removable"]]


def verify(ctx, before, after, added, what, optional=()):
    """before+added: parts which were there or were added; after: parts now there."""
    m = missing(protected(before) + protected(added), after)
    ctx.check(m is None, "protected-peak-lost", lambda: "%s: %s, left: %s" % (what(), m, after))
    m = missing(special(after), before + added + list(optional))
    ctx.check(m is None, "protection-changed", lambda: "%s: %s, was: %s" % (what(), m, before + added))


def verify_baseline(ctx, before, after, what):
    if before is None or after is None:
        ctx.check(before is None and after is None, "baseline-lost", what)
    else:
        ctx.check(same(before, after), "baseline-protection-changed", lambda: "%s: %s, was %s" % (what(), after, before))


def execute(plan, ctx):
    if plan["mode"] == "cluster":
        return run_cluster(plan, ctx)
    return run_extraction(plan, ctx)


def run_cluster(plan, ctx):
    g = Guard()
    src = clusters.Source(plan["case"])
    mc = src.cluster()
    opt = optim.activate(optim.Optimizer(ctx))
    for i, op in enumerate(plan["ops"]):
        opt.start_op([f for f in plan["faults"] if f["op"] == i])
        before = g.parts(mc.model)
        b0 = None if mc.baseline is None else g.part(mc.baseline)
        s0 = clusters.state(mc)
        k = op["op"]
        what = lambda: "operation %d %r" % (i, op)
        added = []
        refused = False
        if k == "owner":
            change_owner(ctx, mc, src, op, what)
            before = g.parts(mc.model)
            b0 = None if mc.baseline is None else g.part(mc.baseline)
        else:
            if k in ("replace", "external"):
                added = g.parts(world.make_peaks(op["peaks"], src.pfs))
            optional = g.parts(world.make_peaks(op["peaks"], src.pfs)) if k == "augment" else []
            victims = []
            if k == "delete":
                victims = list(mc.model)[op["idx"] : op["idx"] + 1]
            elif k == "replace":
                victims = list(mc.model)[op["lo"] : op["hi"]]
            must = any(not p.removable for p in victims)
            try:
                clusters.apply(src, mc, op)
            except (ValueError, world.SrMiseError) as e:
                if k not in ("delete", "replace") or not must:
                    raise
                refused = True
            ctx.check(refused == must, "removal-of-protected-peak", what)
            if refused:
                d = world.diff(s0, clusters.state(mc))
                ctx.check(d is None, "refused-operation-had-effect", lambda: "%s: %s" % (what(), d))
                ctx.probe("refused")
                ctx.nontrivial = True
            else:
                gone = g.parts(victims)
                rest = list(before)
                for v in gone:
                    rest = [p for j, p in enumerate(rest) if j != [same(v, q) for q in rest].index(True)]
                verify(ctx, rest, g.parts(mc.model), added, what, optional)
        verify_baseline(ctx, b0, None if mc.baseline is None else g.part(mc.baseline), what)
        if special(before) and k in ("fit", "contfit", "prune", "augment", "reduce", "cleanfit"):
            ctx.nontrivial = True
        ctx.state(k, bool(protected(before)), bool([p for p in before if p["fixed"]]), bool([p for p in before if p["static"]]),
                  sorted(set(f[1] for f in opt.fired)))
        ctx.log(i, k, refused, clusters.state(mc)["model"])


def change_owner(ctx, mc, src, op, what):
    part = mc.baseline if op["baseline"] and mc.baseline is not None else None
    if part is None:
        if not len(mc.model):
            return
        part = mc.model[op["idx"] % len(mc.model)]
    if op["pf"] == "same":
        new = part.owner()
    elif op["pf"] == "nano":
        new = world.NanoSpherical()
    else:
        new = type(src.pfs[0])(2.0)
    names = world.Names(False)
    old = world.snap_part(part, names)
    must = part.static_owner and new is not part.owner() or part.owner().npars != new.npars
    try:
        part.changeowner(new)
        refused = False
    except SrMiseStaticOwnerError:
        refused = True
    ctx.check(refused == must, "owner-of-static-part", what)
    if refused:
        ctx.check(world.diff(old, world.snap_part(part, names)) is None, "refused-operation-had-effect", what)
        ctx.probe("owner refused")
    else:
        ctx.check(part.owner() is new, "owner-not-changed", what)


def run_extraction(plan, ctx):
    g = Guard()
    case = plan["case"]
    d = disk.activate(disk.SimDisk(ctx, []))
    ext = world.make_extraction(case)
    opt = optim.activate(optim.Optimizer(ctx))
    for i, op in enumerate(plan["ops"]):
        opt.start_op([f for f in plan["faults"] if f["op"] == i])
        k = op["op"]
        what = lambda: "operation %d %r" % (i, op)
        ip0 = g.parts(ext.initial_peaks or [])
        res0 = None if ext.extracted is None else g.parts(ext.extracted.model)
        base0 = ext.baseline
        b0 = g.part(base0) if base0 is not None and not isinstance(base0, world.BaseFunction) else None
        snap0 = world.snap_ext(ext, functions=False)["initial_peaks"]
        if k in ("extract", "fit"):
            ops.apply(ext, op)
            if ip0:
                ctx.nontrivial = True
            verify(ctx, ip0, g.parts(ext.extracted.model), [], what)
            if b0 is not None:
                verify_baseline(ctx, b0, g.part(ext.extracted.baseline), what)
            dd = world.diff(snap0 or [], world.snap_ext(ext, functions=False)["initial_peaks"] or [])
            ctx.check(dd is None, "initial-peaks-changed", lambda: "%s: %s" % (what(), dd))
        elif k == "estimate":
            try:
                ops.apply(ext, op)
            except ValueError:
                ctx.log(i, "estimate refused")
                continue
            if ext.extracted is not None:
                verify(ctx, res0, g.parts(ext.extracted.model), [], what)
            verify(ctx, ip0, g.parts(ext.initial_peaks), [], what)
        elif k == "addpeak":
            add = g.parts(world.make_peaks([op["peak"]], ext.pf or world.make_pfs([["Gaussian", 5.0]])))
            if ext.initial_peaks is None and ext.extracted is None:
                continue
            ops.apply(ext, op)
            if ext.extracted is not None:
                verify(ctx, res0, g.parts(ext.extracted.model), add, what)
            else:
                verify(ctx, ip0, g.parts(ext.initial_peaks), add, what)
        elif k == "delete" and ext.extracted is not None and len(ext.extracted.model):
            mc = ext.extracted
            idx = op["idx"] % len(mc.model)
            must = not mc.model[idx].removable
            s0 = clusters.state(mc)
            try:
                mc.deletepeak(idx)
                refused = False
            except ValueError:
                refused = True
            ctx.check(refused == must, "removal-of-protected-peak", what)
            if refused:
                ctx.check(world.diff(s0, clusters.state(mc)) is None, "refused-operation-had-effect", what)
        elif k == "saveload":
            path = d.path("x.srmise")
            ext.write(path)
            new = type(ext)()
            new.read(path)
            for a, b in ((ext.initial_peaks, new.initial_peaks),
                         (ext.extracted and ext.extracted.model, new.extracted and new.extracted.model)):
                pa, pb = g.parts(a or []), g.parts(b or [])
                ctx.check(len(pa) == len(pb) and all(same(u, v) for u, v in zip(pa, pb)), "protection-changed",
                          lambda: "%s: %s, was %s" % (what(), pb, pa))
            if b0 is not None:
                verify_baseline(ctx, b0, g.part(new.baseline), what)
            if ext.extracted is not None and ext.extracted.baseline is not None:
                verify_baseline(ctx, g.part(ext.extracted.baseline), g.part(new.extracted.baseline), what)
            if special(ip0):
                ctx.nontrivial = True
            ext = new
        elif k == "feedback" and ext.extracted is not None:
            ext.setvars(quiet=True, initial_peaks=ext.extracted.model, baseline=ext.extracted.baseline)
        elif k == "stability" and isinstance(ext, world.PDFPeakExtraction) and b0 is not None:
            ps = world.PeakStability()
            ps.setppe(ext)
            with world.Silent():
                ps.run([0.3])
            verify(ctx, ip0, g.parts(ps.results[0][1]), [], what)
            verify_baseline(ctx, b0, g.part(ps.results[0][2]), what)
        ctx.state(k, case["cls"], bool(protected(ip0)), bool([p for p in ip0 if p["fixed"]]), min(len(opt.fired), 5))
        ctx.log(i, k, world.snap_ext(ext, functions=False)["extracted"])
