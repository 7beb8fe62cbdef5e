"""Model clusters described by JSON, and operations on them (C05, C06, C07, C15)."""
import numpy as np

from sim import world
from sim.world import ModelCluster, ModelCovariance, Peaks, SrMiseError, r3


def gen_peak(rng, case, near=None):
    """[pf index, pos, fwhm, area, free, removable, static]."""
    x0, span = case["x0"], case["dx"] * (case["n"] - 1)
    i = rng.randrange(len(case["pf"]))
    if near is not None:
        kind, pos, fwhm, area = near
        pos += rng.uniform(-0.6, 0.6) * fwhm
        fwhm *= rng.uniform(0.7, 1.3)
        area *= rng.uniform(0.5, 1.3)
    else:
        pos = x0 + rng.uniform(0.0, 1.0) * span
        fwhm = rng.uniform(2, 8) * case["dx"]
        area = rng.uniform(0.02, 1.0)
    pf = case["pf"][i]
    if pf[0] == "TerminationRipples":
        pf = case["pf"][pf[1]]
    fwhm = min(fwhm, 0.9 * pf[1])
    return [i, r3(pos), r3(fwhm), r3(area), [rng.random() < 0.85 for _ in range(3)], rng.random() < 0.8,
            rng.random() < 0.2]


def gen_cluster(rng, size="tiny", flags=True):
    """A case with the start model of a cluster."""
    case = world.gen_case(rng, size, cls="PE", want={"npeaks": rng.choice([3, 4, 6] if size == "medium" else [1, 1, 2, 3])})
    case["dy"] = None
    case["edy"] = case["edy"] or 0.2
    if case["em"] is None:
        case["em"] = "AICc"
    case["rng"] = None
    if case["baseline"] is not None and case["baseline"].get("pars") is None:
        case["baseline"]["pars"] = [0.0] * (case["baseline"]["degree"] + 1)
    start = []
    for p in case["peaks"]:
        if rng.random() < 0.85:
            start.append(gen_peak(rng, case, p))
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        start.append(gen_peak(rng, case))
    if not flags:
        for p in start:
            p[4], p[5], p[6] = [True] * 3, True, False
    case["initial"] = None
    case["start"] = sorted(start, key=lambda p: p[1])
    if rng.random() < 0.3:
        n = case["n"]
        lo = rng.randint(0, n // 4)
        case["slice"] = [lo, rng.randint(3 * n // 4, n)]
    return case


class Source(object):
    """What clusters of one case share."""

    def __init__(self, case):
        self.case = case
        self.pfs = world.make_pfs(case["pf"])
        self.x, self.y = world.synth(case)
        self.dy = case["edy"] * np.ones(len(self.x))
        self.em = world.EVALUATORS[case["em"]]

    def cluster(self, model=None, sl=None):
        b = world.make_baseline(self.case.get("baseline"))
        sl = sl or self.case.get("slice")
        m = world.make_peaks(self.case["start"] if model is None else model, self.pfs)
        return ModelCluster(m, b, self.x, self.y, self.dy, slice(*sl) if sl else None, self.em, list(self.pfs))

    def pair(self, cut):
        """Two adjacent clusters with the peaks on their sides."""
        b = world.make_baseline(self.case.get("baseline"))
        n = len(self.x)
        out = []
        xc = self.x[cut]
        for sl, side in ((slice(0, cut), 0), (slice(cut, n), 1)):
            m = [p for p in self.case["start"] if (p[1] >= xc) == bool(side)]
            out.append(ModelCluster(world.make_peaks(m, self.pfs), None if b is None else b.copy(), self.x, self.y,
                                    self.dy, sl, self.em, list(self.pfs)))
        return out


KINDS = ("fit", "fit", "fit", "contfit", "slice", "delete", "replace", "estimatepeak", "reduce", "prune", "augment",
         "cleanfit", "external")


def gen_op(rng, case, kinds=KINDS):
    k = rng.choice(kinds)
    op = {"op": k}
    n = case["n"]
    if k == "fit":
        op.update(
            justify=rng.random() < 0.3,
            baseline=rng.random() < 0.5,
            estimate=rng.random() < 0.7,
            cov=rng.random() < 0.4,
            ntrials=rng.choice([0, 0, 0, 2, 5, 20, 60]),
        )
        if op["cov"]:
            op["fmt"] = rng.choice(["default_output", "default_output", "pwa", "internal", "mu_sigma_area"])
    elif k == "contfit":
        op.update(minpoints=rng.choice([1, 5, 10]), growth=rng.choice([1.0, 1.0, 1.5, 2.0]))
    elif k == "slice":
        lo = rng.choice([0, 0, rng.randint(0, n // 3)])
        op["slice"] = [lo, rng.choice([n, n, rng.randint(2 * n // 3, n)])]
    elif k == "delete":
        op["idx"] = rng.randrange(6)
    elif k == "replace":
        a = rng.randrange(5)
        op.update(peaks=[gen_peak(rng, case) for _ in range(rng.choice([0, 1, 1, 2]))], lo=a,
                  hi=a + rng.choice([0, 0, 1, 2]))
    elif k == "reduce":
        op.update(x=r3(case["x0"] + rng.uniform(0, 1) * case["dx"] * (n - 1)), y=r3(rng.uniform(-1, 5)))
    elif k in ("augment", "external"):
        ps = []
        for p in case["peaks"]:
            if rng.random() < 0.5:
                ps.append(gen_peak(rng, case, p))
        if rng.random() < 0.5 or not ps:
            ps.append(gen_peak(rng, case))
        op["peaks"] = ps
    return op


def apply(src, mc, op, out=None):
    """Perform op on mc; out collects what the operation worked with. Refusals are returned."""
    out = {} if out is None else out
    k = op["op"]
    if k == "fit":
        cov = None
        kw = {}
        if op["cov"]:
            cov = out["cov"] = out.get("stale") or ModelCovariance()
            kw["cov_format"] = op.get("fmt", "default_output")
        return mc.fit(justify=op["justify"], ntrials=op["ntrials"], fitbaseline=op["baseline"], estimate=op["estimate"],
                      cov=cov, **kw)
    if k == "contfit":
        return mc.contingent_fit(op["minpoints"], op["growth"])
    if k == "slice":
        return mc.change_slice(slice(*op["slice"]))
    if k == "delete":
        return mc.deletepeak(op["idx"])
    if k == "replace":
        return mc.replacepeaks(world.make_peaks(op["peaks"], src.pfs), slice(op["lo"], op["hi"]))
    if k == "estimatepeak":
        if len(mc.model):
            return None
        try:
            return mc.estimatepeak()
        except world.SrMiseEstimationError:
            return None  # no estimate is possible
    if k == "reduce":
        return mc.reduce_to(op["x"], op["y"])
    if k == "prune":
        return mc.prune()
    if k == "augment":
        out["source"] = ModelCluster(world.make_peaks(op["peaks"], src.pfs), None, src.x, src.y, src.dy, None, src.em,
                                     list(src.pfs))
        return mc.augment(out["source"])
    if k == "cleanfit":
        return mc.cleanfit()
    if k == "external":
        return mc.addexternalpeaks(world.make_peaks(op["peaks"], src.pfs))
    raise ValueError(op)


def state(mc, names=None):
    """Model and baseline of a cluster."""
    names = names or world.Names(False)
    return {"model": world.snap_parts(mc.model, names), "baseline": world.snap_part(mc.baseline, names)}


def gen_faults(rng, ops, p_clean=0.2):
    """Optimizer faults addressed by operation and optimizer call within it."""
    from sim import optim

    if rng.random() < p_clean:
        return []
    out = []
    mode = rng.random()
    for i, op in enumerate(ops):
        k = op["op"]
        if k in ("fit", "contfit") and rng.random() < 0.6:
            f = optim.gen_fault(rng, 0)
            f["op"] = i
            out.append(f)
        elif k in ("prune", "augment", "reduce") and rng.random() < 0.7:
            if mode < 0.25:
                f = optim.gen_fault(rng, 0)
                f.update(op=i, every=True)
                f["call"] = rng.choice([0, 0, 1, 2, 4])
                out.append(f)
            else:
                for _ in range(rng.choice([1, 1, 2, 3, 5])):
                    f = optim.gen_fault(rng, rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 9, 14]))
                    f["op"] = i
                    out.append(f)
    return out
