"""C16: extraction variables are those set or the documented defaults, and govern the whole extraction."""
import copy
import os

import numpy as np

from sim import instants, ops, optim, world  # first: installs the seams

from diffpy.srmise.dataclusters import DataClusters
from diffpy.srmise.pdfpeakextraction import find_qmax

from sim.world import r3

QUICK_RUNS = 2500
THOROUGH_RUNS = 200000
LIMIT = 90
LEVEL = "exploration"
RULE = (
    "a run is a history of loading data, setting, clearing and defaulting variables, refused settings, failing baseline "
    "estimates, extractions, fits and estimates with optimizer faults or interrupts at chosen lines, saves and loads, each "
    "followed by a comparison of every variable with a model of the documented rules; evaluators and clusterings used "
    "within extractions are recorded; non-trivial: at least five operations; distinct by digest of the event log"
)
STATE_MEASURE = "(operation, variables concerned, ended or raised, class, which variables were unset)"
REAL = ["PeakExtraction/PDFPeakExtraction variables and operations", "DataClusters", "model evaluators", "scipy leastsq", "files"]
STUB = ["optimizer faults", "instants (sys.monitoring line events)", "failing baseline estimates", "clock"]
ASSUMPTIONS = ["estimate_parameters of a baseline function and find_qmax are taken as they are (N06)"]
SHRINK_LISTS = ("ops", "faults")

COMMON = ["effective_dy", "rng", "pf", "initial_peaks", "baseline", "cres", "error_method"]
PDFONLY = ["qmax", "supersample", "nyquist", "scale"]


def gen_vars(rng, case):
    """Settings of one to three variables, some cleared."""
    out = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        s = ops.gen_set(rng, case)
        if rng.random() < 0.3:
            k = rng.choice(COMMON + (["qmax", "nyquist", "scale"] if case["cls"] == "PDF" else []))
            s = {"none": [k]}
        elif rng.random() < 0.2 and case["cls"] == "PDF":
            s = rng.choice([{"qmax": "automatic"}, {"alias": r3(rng.uniform(0.05, 0.5))}])
        elif rng.random() < 0.15:
            s = {"baseline": {"kind": "poly", "degree": rng.choice([0, 1, 2]), "pars": None, "fail": rng.choice(
                [None, "SrMiseEstimationError", "NotImplementedError"])}}
        if "none" in s and "none" in out:
            s = {"none": sorted(set(s["none"] + out["none"]))}
        out.update(s)
    return out


def generate(rng, tier):
    cls = rng.choice(["PE", "PDF", "PDF"])
    size = "medium" if rng.random() < 0.04 else "tiny"
    cases = [world.gen_case(rng, size, cls=cls) for _ in range(rng.choice([1, 2, 2]))]
    for c in cases:
        c["dykind"] = rng.choice(["none", "zero", "some", "all", "all"])
        c["flat"] = rng.random() < 0.1
        if cls == "PDF" and size == "tiny" and rng.random() < 0.3:
            c["n"] = rng.choice([60, 90])
        if cls == "PDF" and rng.random() < 0.3:
            c.update(scale=True, nyquist=True)
    plan = {"cls": cls, "cases": cases, "ops": []}
    names = COMMON + (PDFONLY + ["dg"] if cls == "PDF" else [])
    if rng.random() < 0.6:
        # All the variables a case has.
        plan["ops"].append({"op": rng.choice(["setdata", "loadpdf"]), "case": 0, "pdf": True, "qmax": rng.choice([0.0, 25.0]), "keep": False})
        c = cases[0]
        spec = {k: c[k] for k in ("edy", "cres", "rng", "em", "baseline", "pf", "initial", "qmax", "nyquist", "supersample", "scale") if c.get(k) is not None}
        plan["ops"].append({"op": "set", "vars": spec})
    for _ in range(rng.randint(4, 14)):
        k = rng.choice(["setdata", "loadpdf", "set", "set", "set", "set", "bad", "bad", "default", "default", "extract", "extract", "fit",
                        "estimate", "resample", "range", "look", "saveload", "clear", "interrupt", "interrupt"])
        case = rng.choice(cases)
        o = {"op": k}
        if k in ("setdata", "loadpdf", "clear"):
            o.update(case=rng.randrange(len(cases)), pdf=rng.random() < 0.5, qmax=rng.choice([0.0, 0.0, 25.0, r3(np.pi / (case["dx"] * 1.3))]),
                     keep=rng.random() < 0.3)
        elif k == "set":
            o["vars"] = gen_vars(rng, case)
        elif k == "bad":
            o["vars"] = gen_vars(rng, case)
            o["how"] = rng.choice(["name-first", "name-last", "both", "supersample"])
        elif k == "default":
            o["names"] = rng.sample(names, rng.choice([0, 1, 1, 2, 3]))
        elif k in ("extract", "fit", "estimate"):
            o["single"] = rng.random() < 0.3
            o["x"] = rng.random()
            o["add"] = rng.random() < 0.6
            o["faults"] = [optim.gen_fault(rng, rng.randrange(30)) for _ in range(rng.choice([0, 0, 1, 2]))]
        elif k == "resample":
            o["fine"] = r3(rng.uniform(0.4, 1.5))
        elif k == "look":
            o["what"] = rng.choice(["str", "writestr", "plot", "plotjoined", "writesummary"])
        elif k == "interrupt":
            o["what"] = rng.choice(["set", "set", "default", "extract", "fit", "look"])
            o["vars"] = gen_vars(rng, case)
            o["names"] = rng.sample(names, rng.choice([0, 1, 2, 4]))
            o["at"] = rng.choice([rng.randrange(12), rng.randrange(60), rng.randrange(4000)])
            o["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
        plan["ops"].append(o)
    return plan


class Failing(object):
    """estimate_parameters of a baseline function which cannot estimate."""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, *a, **k):
        if self.kind == "NotImplementedError":
            raise NotImplementedError("simulated")
        raise world.SrMiseEstimationError("simulated")


class Model(object):
    """The documented rules for extraction variables, applied to snapshots of them."""

    def __init__(self, run):
        self.run = run
        self.v = {k: None for k in run.names}
        self.x = self.y = self.dx = self.dy = None
        self.reported = self.fromdata = None
        self.filename = None

    def copy(self):
        m = copy.copy(self)
        m.v = dict(self.v)
        return m

    def clear(self):
        self.__init__(self.run)

    def data(self, x, y, dy):
        self.x, self.y = np.array(x, dtype=float), np.array(y, dtype=float)
        self.dx = np.zeros(len(x))
        self.dy = np.zeros(len(x)) if dy is None else np.array(dy, dtype=float)
        self.fromdata = None
        if self.run.pdf:
            try:
                self.fromdata = float(find_qmax(self.x.copy(), self.y.copy())[0])
            except Exception:
                pass

    def slice(self):
        lo, hi = self.v["rng"]
        idx = [i for i, v in enumerate(self.x) if lo <= v <= hi]
        return slice(idx[0], idx[-1] + 1) if idx else None

    def set(self, kw):
        """kw: what was given; None unsets."""
        for k, v in kw.items():
            k = {"dg": "effective_dy"}.get(k, k)
            if k == "qmax" and isinstance(v, str):
                v = self.fromdata
            self.v[k] = self.run.plain(k, v)
        self.defaults()

    def defaults(self, names=()):
        v = self.v
        names = set("effective_dy" if n == "dg" else n for n in names)
        for n in names:
            v[n] = None
        if self.run.pdf:
            if v["qmax"] is None:
                v["qmax"] = self.reported if self.reported is not None else self.fromdata if self.fromdata is not None else 0.0
            if v["nyquist"] is None:
                v["nyquist"] = v["qmax"] > 0
            if v["scale"] is None:
                v["scale"] = False
            if v["supersample"] is None:
                v["supersample"] = 4.0
            if v["cres"] is None and v["qmax"] > 0:
                v["cres"] = float(np.pi / v["qmax"])
            if v["pf"] is None:
                v["pf"] = [world.fsig(world.GaussianOverR(0.7))]
        x, y = self.x, self.y
        if v["cres"] is None:
            v["cres"] = float(4 * (x[-1] - x[0]) / len(x))
        if v["effective_dy"] is None:
            v["effective_dy"] = world._plain(self.dy if all(self.dy > 0) else np.full(len(x), 0.05 * (max(y) - min(y))))
        elif isinstance(v["effective_dy"], float):
            v["effective_dy"] = [v["effective_dy"]] * len(x)
        if v["pf"] is None:
            v["pf"] = [world.fsig(world.GaussianOverR(x[-1] - x[0]))]
        r = v["rng"] or [None, None]
        v["rng"] = [float(x[0]) if r[0] is None else r[0], float(x[-1]) if r[1] is None else r[1]]
        b = v["baseline"]
        if isinstance(b, tuple):
            f, fail = b
            v["baseline"] = None
            s = self.slice()
            if not fail:
                try:
                    pars = type(f).estimate_parameters(f, x[s], y[s])
                    v["baseline"] = self.run.plain("baseline", f.actualize(pars, "internal"))
                except (NotImplementedError, world.SrMiseEstimationError):
                    pass
        if v["baseline"] is None:
            v["baseline"] = self.run.plain("baseline", world.Polynomial(degree=-1).actualize(np.array([]), "internal"))
        if v["error_method"] is None:
            v["error_method"] = "AIC"
        if v["initial_peaks"] is None:
            v["initial_peaks"] = []


class Run(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.pdf = plan["cls"] == "PDF"
        self.names = COMMON + (PDFONLY if self.pdf else [])
        self.sigs = {}
        self.ext = world.PDFPeakExtraction() if self.pdf else world.PeakExtraction()
        self.m = Model(self)
        self.case = None
        self.opt = optim.activate(optim.Optimizer(ctx))

    def sig(self, f):
        k = id(f)
        if k not in self.sigs:
            self.sigs[k] = (f, world.fsig(f))
        return self.sigs[k][1]

    def part(self, p):
        return {"f": self.sig(p.owner()), "pars": [float(v) for v in p.pars], "free": [bool(v) for v in p.free],
                "removable": bool(p.removable), "static": bool(p.static_owner)}

    def plain(self, k, v):
        """A variable's value as plain data; a baseline function stays what it is."""
        if v is None:
            return None
        if k == "pf":
            return [self.sig(f) for f in v]
        if k == "initial_peaks":
            return [self.part(p) for p in v]
        if k == "baseline":
            if isinstance(v, world.BaseFunction):
                return (v, getattr(v, "_simfail", None))
            return self.part(v)
        if k == "error_method":
            return v.__name__
        if k in ("nyquist", "scale"):
            return bool(v)
        if k in ("cres", "qmax", "supersample") or k == "effective_dy" and np.isscalar(v):
            return float(v)
        if k == "rng":
            return [None if e is None else float(e) for e in v]
        return world._plain(np.asarray(v, dtype=float))

    def look(self):
        out = {}
        for k in self.names:
            v = self.plain(k, getattr(self.ext, k))
            out[k] = ["function", self.sig(v[0])] if isinstance(v, tuple) else v
        for k in ("x", "y", "dx", "dy"):
            out[k] = world._plain(getattr(self.ext, k))
        if self.pdf:
            out["reported"] = world._plain(self.ext.qmax_reportedbypdf)
            out["fromdata"] = world._plain(self.ext.qmax_fromdata)
        return out

    def expected(self, m=None):
        m = m or self.m
        out = {}
        for k in self.names:
            v = m.v[k]
            out[k] = ["function", self.sig(v[0])] if isinstance(v, tuple) else v
        for k in ("x", "y", "dx", "dy"):
            out[k] = world._plain(getattr(m, k))
        if self.pdf:
            out["reported"], out["fromdata"] = m.reported, m.fromdata
        return out

    def kwds(self, spec):
        spec = dict(spec)
        none, alias, fail = spec.pop("none", []), spec.pop("alias", None), (spec.get("baseline") or {}).get("fail")
        initial = spec.pop("initial", None)
        kw = ops.set_kwds(self.ext, spec)
        if initial is not None:
            pfs = self.ext.pf or []
            pfs = [f for f in pfs if not isinstance(f, world.TerminationRipples)] + [world.Gaussian(5.0), world.GaussianOverR(5.0)]
            peaks = world.Peaks()
            for p in initial:
                for f in pfs[p[0] :]:
                    try:
                        peaks.extend(world.make_peaks([[0] + p[1:]], [f]))
                        break
                    except world.SrMiseError:
                        pass  # wider than the function allows
            kw["initial_peaks"] = peaks
        if fail:
            kw["baseline"].estimate_parameters = Failing(fail)
            kw["baseline"]._simfail = fail
            self.ctx.fault("estimate-" + fail)
        if kw.get("rng") is not None and self.m.x is not None:
            lo, hi = kw["rng"]
            inside = [v for v in self.m.x if (lo is None or v >= lo) and (hi is None or v <= hi)]
            if len(inside) < 3:
                del kw["rng"]  # a range of other data
        for k in none:
            kw[k] = None
        if alias is not None:
            kw.pop("effective_dy", None)
            kw["dg"] = alias
        return kw

    def compare(self, what, rel=1e-9):
        d = world.diff(self.expected(), self.look(), rel=rel, abs_=1e-12)
        self.ctx.check(d is None, "wrong-variable", lambda: "%s: %s" % (what, d))

    def sync(self):
        """Take over what the object has; used where the rules leave a choice."""
        for k in self.names:
            self.m.v[k] = self.plain(k, getattr(self.ext, k))


def load(run, o):
    case = run.plan["cases"][o["case"]]
    x, y = world.synth(case)
    if case["flat"]:
        y = np.ones(len(x)) * 0.5
        y[0] = 0.0
    dy = {"none": None, "zero": np.zeros(len(x)), "all": 0.1 + 0.01 * np.arange(len(x)), "some": 0.2 * (np.arange(len(x)) % 5 > 0)}[case["dykind"]]
    ext, m = run.ext, run.m
    if run.pdf and o["op"] == "loadpdf":
        d = world.PDFDataSet("d")
        d.robs, d.Gobs = list(x), list(y)
        d.drobs = [0.0] * len(x)
        d.dGobs = [0.0] * len(x) if dy is None else [float(v) for v in dy]
        d.qmax = o["qmax"]
        if o["pdf"]:
            ext.loadpdf(d)
        else:
            path = os.path.join(run.ctx.scratch, "d.gr")
            d.rmin, d.rmax = x[0], x[-1]
            d.write(path)
            ext.loadpdf(path)
            d.read(path)
            x, y = d.robs, d.Gobs
        m.clear()
        m.data(d.robs, d.Gobs, d.dGobs)
        m.reported = float(d.qmax)
        run.case = case
        return "loadpdf"
    if o["op"] == "clear":
        ext.clear()
        m.clear()
        run.case = None
        run.compare("clear")
    same = run.case is not None and run.m.x is not None and len(run.m.x) == len(x) and run.m.v["rng"] is not None
    ext.setdata(x, y, None, dy)
    m.data(x, y, dy)
    run.case = case
    run.compare("setdata")
    if not (o["keep"] and same) or m.v["rng"] and (run.m.slice() is None or m.slice().stop - m.slice().start < 12):
        ext.setvars(quiet=True, effective_dy=None, rng=None)
        m.set({"effective_dy": None, "rng": None})
    return "setdata"


def usual(run):
    """Keep extractions affordable: enough data and not too small uncertainties."""
    v = run.m.v
    s = run.m.slice()
    e = np.asarray(v["effective_dy"], dtype=float)
    span = float(np.ptp(run.m.y))
    return (s is not None and s.stop - s.start >= 8 and len(e) == len(run.m.x) and min(e) > 0.02 * span and min(e) > 0.03
            and v["cres"] >= 1.2 * run.case["dx"] and (not run.pdf or v["supersample"] <= 4 and (not v["qmax"] or v["qmax"] < 2.2 * np.pi / run.case["dx"]))
            and len(run.m.x) <= 60)


class Recorder(object):
    """Which evaluators rate models, and which clusterings are made, during an operation."""

    def __enter__(self):
        self.used, self.res, self.grids, self.models, self.saved = set(), [], [], [], []
        for c in (world.AIC, world.AICc):
            f = c.__dict__["evaluate"]
            self.saved.append((c, "evaluate", f))

            def ev(me, *a, _f=f, _n=c.__name__, **k):
                self.used.add(_n)
                return _f(me, *a, **k)

            c.evaluate = ev
        f = DataClusters.__init__
        self.saved.append((DataClusters, "__init__", f))

        def init(me, *a, **k):
            f(me, *a, **k)
            self.res.append(float(me.res))
            self.grids.append(np.array(me.x, dtype=float))

        DataClusters.__init__ = init
        f2 = world.ModelCluster.__init__
        self.saved.append((world.ModelCluster, "__init__", f2))

        def mcinit(me, *a, **k):
            f2(me, *a, **k)
            if me.r_data is not None and me.y_error is not None:
                self.models.append((np.array(me.r_data, dtype=float), np.array(me.y_error, dtype=float), me.error_method, me.peak_funcs, me.baseline))

        world.ModelCluster.__init__ = mcinit
        return self

    def __exit__(self, *a):
        for c, n, f in self.saved:
            setattr(c, n, f)
        return False


def same_fun(a, b):
    """Whether function a is b, or b with termination ripples."""
    return a == b or a["type"] == "TerminationRipples" and a["base"] == b


def governed(run, rec, what, peak, residual=None):
    """What was used within the operation is what the variables say."""
    ctx, v = run.ctx, run.m.v
    ctx.check(rec.used <= {v["error_method"]}, "other-evaluator", lambda: "%s: %s rated models, not only %s" % (what, sorted(rec.used), v["error_method"]))
    ctx.check(all(abs(r - v["cres"]) <= 1e-12 for r in rec.res), "other-resolution", lambda: "%s: clusterings of resolutions %s, cres %s" % (
        what, sorted(set(rec.res)), v["cres"]))
    seen = set()
    for r, e, em, pf, base in rec.models:
        ctx.check(em.__name__ == v["error_method"], "other-evaluator", lambda: "%s: a cluster uses %s, error_method %s" % (what, em.__name__, v["error_method"]))
        if pf is not None:
            ctx.check([run.sig(f) for f in pf] == v["pf"], "other-function", lambda: "%s: a cluster uses functions other than pf" % what)
        if base is not None:
            ctx.check(run.sig(base.owner()) == v["baseline"]["f"], "other-baseline", lambda: "%s: a cluster uses another baseline" % what)
        key = (r.tobytes(), e.tobytes())
        if len(r) < 2 or key in seen:
            continue
        seen.add(key)
        if residual is not None:
            # The residual of an extracted model is looked at with what the model was made with.
            at = [i for i, q in enumerate(residual[0]) if r[0] <= q <= r[-1]]
            ctx.check(len(at) == len(r) and np.array_equal(e, residual[1][at]), "wrong-uncertainty", lambda: "%s of a residual" % what)
            continue
        want = uncertainty(run, r, "-single" in what or what.startswith("estimate"))
        ctx.check(np.allclose(e, want, rtol=1e-6, atol=0), "wrong-uncertainty", lambda: "%s: a cluster on %s to %s in steps %s has %s, not %s" % (
            what, r[0], r[-1], spacing(r), e[:3], want[:3]))
        ctx.check(v["rng"][0] - 1e-9 <= r[0] and r[-1] <= v["rng"][1] + 1e-9, "outside-range", lambda: "%s: a cluster on %s to %s, rng %s" % (
            what, r[0], r[-1], v["rng"]))
    ctx.count("clusters-checked", len(seen))
    mc = run.ext.extracted
    if peak is not None:
        ctx.check(run.sig(peak.owner()) in v["pf"], "other-function", what)
    if mc is None or not what.startswith(("extract", "fit")):
        return
    known = list(v["pf"]) + [p["f"] for p in v["initial_peaks"]]
    for p in mc.model:
        f = run.sig(p.owner())
        ctx.check(any(same_fun(f, k) for k in known), "other-function", lambda: "%s: %s" % (what, world.diff(known[0], f)))
    ctx.check(mc.error_method.__name__ == v["error_method"], "other-evaluator", what)
    ctx.check(mc.r_data[0] >= v["rng"][0] - 1e-9 and mc.r_data[-1] <= v["rng"][1] + 1e-9, "outside-range",
              lambda: "%s: %s to %s with rng %s" % (what, mc.r_data[0], mc.r_data[-1], v["rng"]))
    if run.pdf and "-single" not in what:
        sampled(run, rec, what, mc)
    ctx.check(mc.baseline is not None and same_base(run.part(mc.baseline), v["baseline"]), "other-baseline", what)


def spacing(x):
    return (x[-1] - x[0]) / (len(x) - 1)


def uncertainty(run, r, single):
    """The uncertainties on grid r."""
    v = run.m.v
    scale = 1.0
    if run.pdf and not single and v["qmax"] > 0 and v["nyquist"] and v["scale"]:
        scale = max(1.0, np.sqrt(np.pi / v["qmax"] / spacing(r)))
    return scale * np.interp(r, run.m.x, v["effective_dy"])


def sampled(run, rec, what, mc):
    """Extractions from a PDF use grids and uncertainties as qmax, nyquist, supersample and scale say."""
    ctx, v, m = run.ctx, run.m.v, run.m
    s, qmax = m.slice(), m.v["qmax"]
    raw, nyq = m.x[s], qmax > 0 and v["nyquist"]
    dr = np.pi / qmax if qmax > 0 else None
    r = np.asarray(mc.r_data, dtype=float)
    israw = len(r) == len(raw) and np.allclose(r, raw, rtol=0, atol=1e-9)
    ctx.probe("grid-%s-%s-%s" % (what.split()[0], qmax > 0, v["nyquist"]))
    if what.startswith("fit"):
        if nyq:
            ctx.check(abs(spacing(r) - dr) <= 1e-6 * dr, "wrong-sampling", lambda: "%s: %s for Nyquist %s" % (what, spacing(r), dr))
        else:
            ctx.check(israw, "wrong-sampling", lambda: "%s without Nyquist sampling: %s, data %s" % (what, r[:3], raw[:3]))
    else:
        first = rec.grids[0]
        if qmax == 0:
            ctx.check(len(first) == len(raw) and np.allclose(first, raw, rtol=0, atol=1e-9), "wrong-sampling",
                      lambda: "%s with qmax 0: first %s, data %s" % (what, first[:3], raw[:3]))
        else:
            ctx.check(spacing(first) <= dr / v["supersample"] * (1 + 1e-6), "wrong-sampling", lambda: "%s: first %s for Nyquist %s, supersample %s" % (
                what, spacing(first), dr, v["supersample"]))
        if nyq:
            ctx.check(spacing(r) <= dr * (1 + 1e-6), "wrong-sampling", lambda: "%s: %s for Nyquist %s" % (what, spacing(r), dr))
        else:
            ctx.check(len(r) == len(first) and np.allclose(r, first, rtol=0, atol=1e-9), "wrong-sampling",
                      lambda: "%s without Nyquist sampling: %s, first %s" % (what, r[:3], first[:3]))
        if qmax > 0 and len(mc.model) > 1:
            # A single part may be one a fit found anew after none was left, with functions as in pf.
            for p in mc.model:
                f = run.sig(p.owner())
                given = f in v["pf"] or any(f == q["f"] for q in v["initial_peaks"])
                ctx.check(bool(p.static_owner) or f["type"] == "TerminationRipples" and (given or abs(p.owner().qmax - qmax) <= 1e-12 * qmax),
                          "wrong-ripples", lambda: "%s: %s with qmax %s of %s" % (what, f["type"], qmax, [(type(q.owner()).__name__, list(q.pars), q.free, q.removable) for q in mc.model]))
    want = uncertainty(run, r, False)
    got = np.asarray(mc.y_error, dtype=float)
    ctx.check(np.allclose(got, want, rtol=1e-6, atol=0), "wrong-uncertainty", lambda: "%s: %s not %s" % (what, got[:3], want[:3]))


def same_base(a, b):
    return a["f"] == b["f"] and a["free"] == b["free"]


def operate(run, o, opname=None):
    """Extraction, fit or estimate; returns its description."""
    k = opname or o["op"]
    ext = run.ext
    single = o.get("single")
    with world.Silent():
        if k == "extract":
            return ext.extract_single() if single else world.do_extract(ext)
        if k == "fit":
            return ext.fit_single() if single else world.do_fit(ext)
        lo, hi = run.m.v["rng"]
        return ext.estimate_peak(lo + (0.1 + 0.8 * o["x"]) * (hi - lo), o["add"])


def step(run, o):
    ctx, ext, m = run.ctx, run.ext, run.m
    k = o["op"]
    if run.case is None and k not in ("setdata", "loadpdf", "clear"):
        load(run, {"op": "setdata", "case": 0, "pdf": False, "qmax": 0.0, "keep": False})
    unset = [n for n in run.names if m.v[n] is None]
    if k in ("setdata", "loadpdf", "clear"):
        what = load(run, o)
        run.compare(what)
        return what
    if k == "set":
        kw = run.kwds(o["vars"])
        names = sorted(kw)
        auto = isinstance(kw.get("qmax"), str)
        before = run.look()
        try:
            ext.setvars(quiet=True, **kw)
        except world.SrMiseError as e:
            ctx.check(auto and m.fromdata is None, "setting-refused", lambda: "%s: %s" % (names, e))
            d = world.diff(before, run.look())
            ctx.check(d is None, "refused-setting-acted", lambda: "qmax automatic: %s" % d)
            return "automatic-refused"
        ctx.check(not (auto and m.fromdata is None), "unavailable-qmax-set", names)
        m.set(kw)
        run.compare("set %s" % names)
        ctx.state(k, names, unset, run.plan["cls"])
        return names
    if k == "bad":
        kw = run.kwds(o["vars"])
        how = o["how"]
        if how == "name-first":
            kw = dict([("resolution", 1.0)], **kw)
        elif how == "name-last" or not run.pdf:
            kw["supersampling"] = 2
        elif how == "both":
            kw.update(dg=0.5, effective_dy=0.5)
        else:
            kw["supersample"] = 0.5
        before = run.look()
        try:
            ext.setvars(quiet=o["how"] != "both", **kw)
        except (ValueError, world.SrMiseError):
            pass
        else:
            ctx.check(False, "bad-setting-accepted", lambda: "%s: %s" % (how, sorted(kw)))
        d = world.diff(before, run.look())
        ctx.check(d is None, "refused-setting-acted", lambda: "%s with %s: %s" % (how, sorted(kw), d))
        ctx.fault("refused-setting")
        return how
    if k == "default":
        names = list(o["names"])
        ext.defaultvars(*names)
        m.defaults(names)
        run.compare("default %s" % names)
        ctx.state(k, sorted(names), unset, run.plan["cls"])
        return names
    if k in ("extract", "fit", "estimate"):
        m = run.m = m.copy()
        fill(run)
        if not usual(run) or len(m.v["initial_peaks"]) > 8:
            ext.defaultvars()
            return "unusual"
        run.opt.start_op(o["faults"])
        mc = ext.extracted
        residual = None if k != "estimate" or mc is None else (np.array(mc.r_data, dtype=float), np.array(mc.y_error, dtype=float))
        with Recorder() as rec:
            try:
                r = operate(run, o)
                ended = "done"
            except (ValueError, world.SrMiseError) as e:
                r, ended = None, type(e).__name__
        run.opt.start_op([])
        what = "%s%s %s" % (k, "-single" if o["single"] else "", ended)
        if k == "estimate" and o["add"] and ext.extracted is None and r is not None:
            m.v["initial_peaks"] = sorted(m.v["initial_peaks"] + [run.part(r)], key=lambda p: p["pars"][0])
            run.compare(what, 0)
        run.compare(what)
        governed(run, rec, what if ended == "done" else "stopped", r if k == "estimate" else None, residual)
        ctx.state(k, ended, unset, run.plan["cls"], m.v["error_method"])
        return what
    if k == "resample":
        if not run.pdf:
            return "none"
        fill(run)
        if m.slice() is None:
            ext.defaultvars()
            return "none"
        dr = o["fine"] * run.case["dx"]
        r, y, dx, dy = ext.resampledata(dr)
        lo, hi = max(m.x[0], m.v["rng"][0]), min(m.x[-1], m.v["rng"][1])
        ctx.check(len(r) == len(y) == len(dy) and abs(r[0] - lo) < 1e-9 and hi - dr * 1.000001 <= r[-1] < hi + 1e-9, "wrong-grid",
                  lambda: "%s to %s in steps %s: %s to %s" % (lo, hi, dr, r[0], r[-1]))
        scale = 1.0
        if m.v["qmax"] > 0 and m.v["nyquist"] and m.v["scale"]:
            scale = max(1.0, np.sqrt(np.pi / m.v["qmax"] / dr))
        want = scale * np.interp(r, m.x, m.v["effective_dy"])
        ctx.check(np.allclose(dy, want, rtol=1e-9, atol=0), "wrong-uncertainty", lambda: "scale %s: %s not %s" % (scale, dy[:3], want[:3]))
        run.compare("resample")
        return len(r)
    if k == "range":
        fill(run)
        ext.defaultvars()
        s = m.slice()
        if s is None:
            return "none"
        got = ext.getrangeslice()
        ctx.check((got.start, got.stop) == (s.start, s.stop), "wrong-range", lambda: "rng %s: %s not %s" % (m.v["rng"], got, s))
        run.compare("range")
        return [s.start, s.stop]
    if k == "look":
        look(run, o["what"])
        return o["what"]
    if k == "saveload":
        if isinstance(m.v["baseline"], tuple) and m.v["baseline"][1]:
            return "none"
        text = ext.writestr()
        ext.readstr(text)
        m2 = m.copy()
        m2.x, m2.y, m2.dx, m2.dy = (np.array([float("%g" % e) for e in a]) for a in (m.x, m.y, m.dx, m.dy))
        run.sync()
        d = world.diff(run.expected(m2), run.look(), rel=6e-6, abs_=1e-300)
        ctx.check(d is None, "wrong-variable", lambda: "save and load: %s" % d)
        m.x, m.y, m.dx, m.dy = ext.x, ext.y, ext.dx, ext.dy
        return "saveload"
    if k == "interrupt":
        return interrupt(run, o, unset)
    raise ValueError(k)


def fill(run):
    """Set what is unset; operations on the data do so."""
    run.m.defaults()


def look(run, what):
    ext = run.ext
    with world.Silent():
        if what == "str":
            str(ext)
        elif what == "writestr":
            if not isinstance(run.m.v["baseline"], tuple):
                ext.writestr()
        elif what == "writesummary":
            if ext.extracted is not None:
                ext.writesummary()
        else:
            if ext.extracted is None:
                run.m.defaults()
                if run.m.slice() is None:
                    ext.defaultvars()
                    return
            ext.plot(joined=what == "plotjoined") if what == "plotjoined" else ext.plot()
            ax = world.plt.gca()
            n = len(ax.lines)
            model = ext.extracted.model if ext.extracted is not None else ext.initial_peaks
            want = 2 if what == "plotjoined" else 1 + len(model)
            run.ctx.check(n == want, "wrong-plot", lambda: "%s: %d lines, not %d" % (what, n, want))
            world.plt.close("all")
    run.compare("look at %s" % what)


def interrupt(run, o, unset):
    ctx, ext, m = run.ctx, run.ext, run.m
    exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[o["exc"]]("simulated")
    before, old = run.look(), m.copy()
    given, after = {}, m.copy()
    what = o["what"]
    if what == "set":
        kw = run.kwds(o["vars"])
        if isinstance(kw.get("qmax"), str) and m.fromdata is None:
            return "none"
        given = {("effective_dy" if k == "dg" else k): v for k, v in kw.items()}
        if isinstance(given.get("qmax"), str):
            given["qmax"] = m.fromdata
        after.set(kw)
        call = lambda: ext.setvars(quiet=True, **kw)
    elif what == "default":
        after.defaults(o["names"])
        call = lambda: ext.defaultvars(*o["names"])
    elif what == "look":
        call = lambda: (str(ext), None if isinstance(m.v["baseline"], tuple) else ext.writestr())
    else:
        after.defaults()
        fill(run)
        if not usual(run) or len(m.v["initial_peaks"]) > 8:
            ext.defaultvars()
            return "unusual"
        call = lambda: operate(run, o, what)
    ended = "done"
    inj = instants.Injector(o["at"], exc)
    try:
        with inj:
            call()
    except BaseException as e:
        if e is not exc:
            raise
        ended = "stopped"
    if inj.fired:
        ctx.fault("interrupt-" + o["exc"])
    now = run.look()
    want = run.expected(after)
    for k in now:
        allowed = [before[k], want[k]]
        if k in given:
            v = run.plain(k, given[k])
            allowed.append(["function", run.sig(v[0])] if isinstance(v, tuple) else v)
        if inj.fired and k == "baseline":
            allowed.append(None)  # not estimated yet
            allowed.append(run.plain("baseline", world.Polynomial(degree=-1).actualize(np.array([]), "internal")))  # estimate failed
        if ended == "done" and not inj.fired:
            allowed = [want[k]]
        ds = [world.diff(a, now[k], rel=1e-9, abs_=1e-12) for a in allowed]
        ctx.check(any(d is None for d in ds), "half-set-variable", lambda: "%s with %s at line %d (%s), %s: %s %s" % (
            what, o["exc"], o["at"], inj.fired, ended, k, ds))
    run.sync()
    # Completing what was interrupted gives what it would have given.
    if what in ("set", "default"):
        for k, v in given.items():
            m.v[k] = old.v[k]
        if what == "set":
            m2 = m.copy()
            m2.set(kw)
            ext.setvars(quiet=True, **kw)
        else:
            m2 = m.copy()
            m2.defaults(o["names"])
            ext.defaultvars(*o["names"])
        run.m = m2
        run.compare("repeated %s after %s in %s" % (what, o["exc"], inj.fired))
    else:
        run.m.defaults()
        ext.defaultvars()
        run.compare("defaults after %s in %s of %s" % (o["exc"], inj.fired, what))
    ctx.state("interrupt", what, inj.fired, ended, run.plan["cls"])
    return what, inj.fired, ended


def execute(plan, ctx):
    run = Run(plan, ctx)
    for i, o in enumerate(plan["ops"]):
        r = step(run, o)
        ctx.log(i, o["op"], r, sorted(run.look().items(), key=lambda t: t[0]))
        if i >= 4:
            ctx.nontrivial = True


def shrink(plan):
    for i, o in enumerate(plan["ops"]):
        if isinstance(o.get("vars"), dict) and len(o["vars"]) > 1:
            for k in o["vars"]:
                p = copy.deepcopy(plan)
                del p["ops"][i]["vars"][k]
                yield p
        if o.get("faults"):
            p = copy.deepcopy(plan)
            p["ops"][i]["faults"] = []
            yield p
