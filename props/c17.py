"""C17: looking at an object changes neither it nor what comes after."""
import copy
import os
import random
import re
import sys
import weakref

import numpy as np

from sim import instants, ops, optim, world  # first: installs the seams

from diffpy.srmise.dataclusters import DataClusters

from sim.world import r3

QUICK_RUNS = 1200
THOROUGH_RUNS = 200000
LIMIT = 90
LEVEL = "exploration"
RULE = (
    "a run is a history of operations on one extraction with looks (describe, write, plot, rate, evaluate, copy, convert, query, resample, estimate "
    "without adding) between them, some interrupted at a chosen line, and looks at all clusters, parts and functions at chosen lines in the middle "
    "of operations; a twin does the same history without looks; non-trivial: at least ten looks and one operation which "
    "gave a model; distinct by digest of the event log"
)
STATE_MEASURE = "(look, ended, kind of object, operation before) and (function in whose middle was looked)"
REAL = ["all query, description, serialisation, plotting and evaluation methods", "extraction and fitting", "scipy leastsq"]
STUB = ["instants (sys.monitoring line events)", "optimizer faults", "clock"]
ASSUMPTIONS = ["matplotlib's state is not part of any object"]
SHRINK_LISTS = ("ops", "faults", "looks", "middle", "last")

LOOKS = ("str", "writestr", "write", "plot", "range", "resample", "scale", "estimate", "summary", "metadata",
         "mc-str", "mc-write", "quality", "quality", "quality-other", "growth", "value", "value-at", "valuebl", "residual", "plottable",
         "plottable-joined", "npars", "mc-copy", "cov", "cov-numbers", "part-value", "part-jacobian", "part-text", "part-items", "part-copy", "parts-sub",
         "transform", "derivatives", "estimate-parameters", "function-text", "weights", "pdf", "pwa")


def gen_look(rng):
    return {"look": rng.choice(LOOKS), "seed": rng.randrange(1 << 30), "at": rng.choice([None, None, rng.randrange(8), rng.randrange(60), rng.randrange(600)]),
            "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "ValueError"])}


def generate(rng, tier):
    case = world.gen_case(rng, "tiny")
    if rng.random() < 0.3:
        case["pf"].append(["TerminationRipples", 0, r3(rng.uniform(10, 25))])
    if rng.random() < 0.3:
        case["rng"] = rng.choice([[None, r3(case["x0"] + 1.5 * case["dx"] * case["n"])], [r3(case["x0"] / 2), None], [0.01, 1000.0]])
    olist = []
    for _ in range(rng.randint(1, 6)):
        o = ops.gen_op(rng, case, ("extract", "extract", "fit", "fit", "set", "estimate", "addpeak"))
        if rng.random() < 0.25 and o["op"] in ("extract", "fit"):
            o["op"] += "_single"
        if o["op"] == "estimate" and rng.random() < 0.5:
            o["add"] = True
        if rng.random() < 0.12:
            o = {"op": "reverse"}
        elif rng.random() < 0.25:
            o = {"op": "edit", "seed": rng.randrange(1 << 30)}
        o["faults"] = [optim.gen_fault(rng, rng.randrange(25)) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
        o["looks"] = [gen_look(rng) for _ in range(rng.choice([1, 3, 6, 10]))]
        o["middle"] = [[rng.choice([rng.randrange(3000), rng.randrange(20000), rng.randrange(60000)]), rng.randrange(1 << 30)] for _ in range(rng.choice([0, 1, 2, 4]))]
        olist.append(o)
    return {"case": case, "ops": olist, "last": [[rng.choice(LOOKS), rng.randrange(1 << 30)] for _ in range(8)]}


class Middle(object):
    """Calls action(seed) at given numbers of executed lines."""

    def __init__(self, at, action):
        self.at = sorted(map(tuple, at))
        self.action = action
        self.count = 0
        self.busy = False
        self.fired = []

    def line(self, code, line):
        if self.busy:
            return
        i = self.count
        self.count = i + 1
        if self.at and i >= self.at[0][0]:
            self.busy = True
            try:
                n, seed = self.at.pop(0)
                self.fired.append(code.co_qualname)
                self.action(seed, code.co_qualname)
            finally:
                self.busy = False

    def __enter__(self):
        instants._start(self)
        return self

    def __exit__(self, *a):
        instants._stop()
        return False


class Live(object):
    """All clusters and clusterings alive during an operation."""

    def __enter__(self):
        self.refs = []
        self.saved = []
        for c in (world.ModelCluster, DataClusters):
            f = c.__init__
            self.saved.append((c, f))

            def init(me, *a, _f=f, **k):
                _f(me, *a, **k)
                self.refs.append(weakref.ref(me))

            c.__init__ = init
        return self

    def objects(self):
        out = [r() for r in self.refs[-200:]]
        return [o for o in out if o is not None]

    def __exit__(self, *a):
        for c, f in self.saved:
            c.__init__ = f
        return False


#: where an object happens to lie in memory, as its default text shows it
ADDRESS = re.compile(r" at 0x[0-9a-fA-F]+")


def answer(v, names=None):
    """A look's answer as plain data."""
    if isinstance(v, (list, tuple)) and not isinstance(v, (world.Peaks,)):
        return [answer(e) for e in v]
    if isinstance(v, world.Peaks):
        return world.snap_parts(v, world.Names(False))
    if isinstance(v, world.ModelCluster):
        return world.snap_mc(v, world.Names(False))
    if hasattr(v, "pars") and hasattr(v, "free"):
        return world.snap_part(v, world.Names(False))
    if hasattr(v, "stat"):
        return [type(v).__name__, repr(v.stat), repr(getattr(v, "chisq", None))]
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (np.generic,)):
        return v.item()
    if isinstance(v, slice):
        return repr(v)
    if isinstance(v, str):
        return ADDRESS.sub("", v)
    return v


class Looker(object):
    """The looks, decided by a generator each."""

    def __init__(self, run):
        self.run = run

    def parts(self):
        ext = self.run.ext
        out = []
        if ext.extracted is not None:
            out += list(ext.extracted.model)
            if ext.extracted.baseline is not None:
                out.append(ext.extracted.baseline)
        out += list(ext.initial_peaks or [])
        if hasattr(ext.baseline, "pars"):
            out.append(ext.baseline)
        return out

    def functions(self):
        fs = list(self.run.ext.pf or []) + [p.owner() for p in self.parts()]
        out = []
        for f in fs:
            if not any(f is g for g in out):
                out.append(f)
        return out

    def prepare(self, name, rng, mc=None):
        """(callable, given arrays, kind) or None."""
        run, ext = self.run, self.run.ext
        if mc is None:
            mc = ext.extracted
        x = np.asarray(ext.x, dtype=float)
        grid = x[rng.randrange(3) : len(x) - rng.randrange(3)] + 0.001 * rng.randrange(10)
        if name in ("mc-str", "mc-write", "quality", "quality-other", "growth", "value", "value-at", "valuebl", "residual", "plottable", "plottable-joined",
                    "npars", "mc-copy") and mc is None:
            return None
        if name == "str":
            return (lambda: str(ext)), [], "extraction"
        if name == "writestr":
            return (lambda: world.body(ext.writestr())), [], "extraction"
        if name == "write":
            path = os.path.join(run.ctx.scratch, "look.srmise")

            def write():
                ext.write(path)
                with open(path) as f:
                    return world.body(f.read())

            return write, [], "extraction"
        if name == "plot":
            joined = rng.choice([None, True, False])

            def plot():
                ext.plot() if joined is None else ext.plot(joined=joined)
                out = [[ln.get_xdata().tolist(), ln.get_ydata().tolist()] for ln in world.plt.gca().lines]
                world.plt.close("all")
                return out

            return plot, [], "extraction"
        if name == "range":
            return ext.getrangeslice, [], "extraction"
        if name in ("resample", "scale"):
            if not isinstance(ext, world.PDFPeakExtraction):
                return None
            dr = run.case["dx"] * rng.choice([0.5, 0.9, 1.3])
            return (lambda: ext.resampledata(dr)) if name == "resample" else (lambda: ext.errorscale(dr)), [], "extraction"
        if name == "estimate":
            lo, hi = ext.rng
            at = max(lo, x[0]) + rng.uniform(0.1, 0.9) * (min(hi, x[-1]) - max(lo, x[0]))
            return (lambda: ext.estimate_peak(at, False)), [], "extraction"
        if name == "summary":
            return (lambda: ext.writesummary()) if ext.extracted is not None else None, [], "extraction"
        if name == "metadata":
            return ext.writemetadata, [], "extraction"
        if name == "pwa":
            if not isinstance(ext, world.PDFPeakExtraction) or ext.extracted is None:
                return None
            return (lambda: world.body(ext.writepwastr("look"))), [], "extraction"
        if name == "mc-str":
            return (lambda: str(mc)), [], "cluster"
        if name == "mc-write":
            return mc.writestr, [], "cluster"
        if name == "quality":
            shift = rng.choice([0, 0, 1, 3])
            return (lambda: mc.quality(kshift=shift)), [], "cluster"
        if name == "quality-other":
            ev = rng.choice([world.AIC, world.AICc])
            fixed = rng.random() < 0.5
            return (lambda: mc.quality(ev, count_fixed=fixed)), [], "cluster"
        if name == "growth":
            k = rng.choice([1, 3, 4])
            return (lambda: mc.quality().growth_justified(mc, k)), [], "cluster"
        if name == "value":
            return mc.value, [], "cluster"
        if name == "value-at":
            return (lambda: mc.value(grid)), [grid], "cluster"
        if name == "valuebl":
            return (lambda: [mc.valuebl(), mc.valuebl(grid)]), [grid], "cluster"
        if name == "residual":
            return mc.residual, [], "cluster"
        if name == "plottable":
            return (lambda: [mc.plottable(), mc.plottable_residual()]), [], "cluster"
        if name == "plottable-joined":
            return (lambda: mc.plottable(True)), [], "cluster"
        if name == "npars":
            return (lambda: [mc.npars(b, c) for b in (True, False) for c in (True, False)]), [], "cluster"
        if name == "mc-copy":
            return (mc.copy if rng.random() < 0.5 else lambda: world.ModelCluster(mc)), [], "cluster"
        if name in ("cov", "cov-numbers"):
            cov = run.cov
            if cov is None or cov.model is None:
                return None
            if name == "cov":
                return (lambda: [str(cov), None if cov.cov is None else cov.correlationwarning(0.5)]), [], "covariance"
            n = sum(len(p.pars) for p in cov.model)
            if n == 0:
                return None
            i, j = rng.randrange(n), rng.randrange(n)
            return (lambda: [cov.get(i), cov.getvalue(j), cov.getuncertainty(cov.ipmap[i]), cov.getcovariance(i, cov.ipmap[j]), cov.getcorrelation(i, j), cov.prettypar(i)]), [], "covariance"
        parts, funcs = self.parts(), self.functions()
        if name.startswith("part-"):
            if not parts:
                return None
            p = rng.choice(parts)
            s = rng.choice([None, slice(2, len(grid) - 3), slice(0, 5), slice(-4, None)])
            if name == "part-value":
                return (lambda: p.value(grid, s)), [grid], "part"
            if name == "part-jacobian":
                return (lambda: [None if a is None else a.tolist() for a in p.jacobian(grid, s)]), [grid], "part"
            if name == "part-text":
                return (lambda: [str(p), p.writestr([p.owner()]), len(p)]), [], "part"
            if name == "part-items":
                keys = list(p.owner().parameterdict)
                return (lambda: [[p[k], p.getfree(k)] for k in keys] + [p.compress(), p.npars(), p.npars(False), p == p, p != parts[0]]), [], "part"
            return p.copy, [], "part"
        if name == "parts-sub":
            peaks = ext.initial_peaks if mc is None or rng.random() < 0.3 else mc.model
            if not peaks:
                return None
            a = rng.randrange(len(peaks) + 1)
            return (lambda: [peaks[a:], peaks[(0, a)], peaks.copy(), peaks.argsort(), peaks.npars(), peaks.npars(False), peaks.unpack_freepars(), str(peaks),
                             peaks.value(grid), peaks.covariance()]), [grid], "parts"
        if name in ("transform", "derivatives", "estimate-parameters", "function-text"):
            f = rng.choice(funcs)
            own = [p for p in parts if p.owner() is f]
            if name == "function-text":
                return (lambda: [f.getmodule(), f.writestr([f] if f.base is None else [f.base, f]), list(f.parformats), f.npars]), [], "function"
            if name == "estimate-parameters":
                y = np.asarray(ext.y, dtype=float)[: len(grid)].copy()
                return (lambda: f.estimate_parameters(grid, y)), [grid, y], "function"
            if not own:
                return None
            pars = np.array(rng.choice(own).pars, dtype=float)
            a, b = "internal", rng.choice(list(f.parformats))
            if len(pars) and rng.random() < 0.4:
                pars[rng.randrange(len(pars))] *= -1  # as optimizers may leave them
            if name == "transform":
                return (lambda: [f.transform_parameters(pars, a, b), f.value(f.actualize(pars, a), grid)]), [pars, grid], "function"
            return (lambda: f.transform_derivatives(pars, a, b)), [pars], "function"
        if name == "weights":
            aics = [world.AIC() for _ in range(4)]
            for i, a in enumerate(aics):
                a.stat = float(rng.randrange(20))
            stats = np.array([a.stat for a in aics])
            return (lambda: [world.AIC.akaikeweights(aics), world.AIC.akaikeprobs(aics)]), [stats], "evaluator"
        if name == "pdf":
            d = run.pdf
            return (lambda: [d.writeStr().split("[DATA]")[-1], [d.getvar(v) for v in sorted(d.refinableVars)], d.copy().robs]), [], "pdf"
        raise ValueError(name)

    def everything(self):
        """Snapshot of all objects."""
        run = self.run
        names = run.names
        ext = run.ext
        d = world.snap_ext(ext, names)
        d["covs"] = world.snap_cov(run.cov)
        if ext.extracted is not None:
            mc = ext.extracted
            d["cluster"] = [world._plain(v) for v in (mc.r_cluster, mc.y_cluster, mc.error_cluster, mc.size, mc.never_fit, mc.last_fit_size)]
        d["pdf"] = world.snap_pdf(run.pdf)
        d["state"] = [sorted((k, re.sub(" at 0x[0-9a-f]*", "", repr(v))) for k, v in vars(f).items() if isinstance(v, (int, float, str, list, tuple, dict, bool))) for f in self.functions()]
        d["given"] = [a.tolist() for a in run.given]
        return d


class Run(object):
    def __init__(self, plan, ctx, opt):
        self.opt = opt
        self.ctx, self.case = ctx, plan["case"]
        x, y = world.synth(self.case)
        self.given = [x, y]
        self.pfs = world.make_pfs(self.case["pf"])
        self.ext = world.make_extraction(self.case, pfs=self.pfs)
        self.names = world.Names()
        self.cov = None
        self.pdf = world.PDFDataSet("d")
        self.pdf.robs, self.pdf.Gobs = list(x), list(y)
        self.pdf.drobs, self.pdf.dGobs = [0.0] * len(x), [0.1] * len(x)
        self.pdf.qmax = 20.0
        self.pdf.rmin, self.pdf.rmax = x[0], x[-1]
        self.looker = Looker(self)
        self.nlooks = 0

    def look(self, spec, i, before):
        ctx = self.ctx
        self.opt.start_op([])
        name = spec["look"]
        p = self.looker.prepare(name, random.Random(spec["seed"]))
        if p is None or p[0] is None:
            return
        call, given, kind = p
        was = self.looker.everything()
        arrays = [a.copy() for a in given]
        ended = "done"

        def ask():
            try:
                with world.Silent():
                    return ["answer", answer(call())]
            except (world.SrMiseError, ValueError, NotImplementedError, IndexError, TypeError, KeyError, AttributeError) as e:
                return [type(e).__name__, str(e)]

        first = None
        if spec["at"] is not None:
            exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "ValueError": ValueError}[spec["exc"]]("simulated")
            inj = instants.Injector(spec["at"], exc)
            try:
                with inj:
                    with world.Silent():
                        first = ["answer", answer(call())]
            except BaseException as e:
                if e is not exc and not isinstance(e, Exception):
                    raise
                ended = "stopped"
            world.plt.close("all")
            if inj.fired:
                ctx.fault("interrupt-" + spec["exc"])
                first = None  # whatever it made of it
            self.same(was, arrays, given, "%s stopped by %s at line %d, in %s" % (name, spec["exc"], spec["at"], inj.fired))
        a = ask()
        ctx.check(first is None or world.diff(first, a) is None or a[0] != "answer", "answers-differ", lambda: "%s: %s" % (name, world.diff(first, a)))
        self.same(was, arrays, given, "%s (%s)" % (name, a[0]))
        b = ask()
        d = world.diff(a, b)
        ctx.check(d is None, "answers-differ", lambda: "%s asked again: %s" % (name, d))
        self.nlooks += 1
        ctx.count("look-%s-%s" % (name, a[0]))
        ctx.state(name, ended, a[0], kind, before)
        ctx.log(i, name, a[0], spec["at"], ended)

    def same(self, was, arrays, given, what):
        d = world.diff(was, self.looker.everything())
        self.ctx.check(d is None, "look-changes-object", lambda: "%s: %s" % (what, d))
        for a, g in zip(arrays, given):
            self.ctx.check(np.array_equal(a, g), "look-changes-argument", lambda: "%s: %s became %s" % (what, a[:4], g[:4]))

    def edit(self, rng):
        """Changes made by hand to one of the parts or to the extracted cluster."""
        ext, mc = self.ext, self.ext.extracted
        parts = self.looker.parts()
        what = rng.choice(["pars", "pars", "free", "slice", "baseline", "swap"])
        if what == "slice" and mc is not None and len(mc.r_data) > 12:
            n = len(mc.r_data)
            mc.change_slice(slice(rng.randrange(3), n - rng.randrange(3)))
        elif what == "swap" and mc is not None and len(mc.model):
            mc.replacepeaks(world.Peaks([p.copy() for p in mc.model]), slice(0, len(mc.model)))
            mc.model[0].pars[2] *= 1.5
        elif parts:
            p = rng.choice(parts)
            if len(p.pars):
                i = rng.randrange(len(p.pars))
                if what == "free":
                    p.free[i] = not p.free[i]
                else:
                    p.pars[i] *= rng.choice([0.9, 1.1])
        return "edited"

    def operate(self, o):
        self.opt.start_op(o["faults"])
        try:
            if o["op"] == "reverse":
                (self.ext.initial_peaks if self.ext.extracted is None else self.ext.extracted.model).reverse()
                return "reversed"
            if o["op"] == "edit":
                return self.edit(random.Random(o["seed"]))
            with world.Silent():
                r = ops.apply(self.ext, o)
            if isinstance(r, world.ModelCovariance):
                self.cov = r
            return "done"
        except (world.SrMiseError, ValueError, IndexError) as e:
            return type(e).__name__


def queries(dc, rng):
    """Questions to a clustering which is being made."""
    n = len(dc.x)
    i = rng.randrange(n)
    str(dc.clusters), dc == dc, dc.find_adjacent_clusters(), dc.cluster_boundaries()
    if len(dc.clusters):
        dc.find_nearest_cluster(i), dc.find_nearest_cluster2(float(dc.x[i])), dc.cluster_is_full(rng.randrange(len(dc.clusters))), dc.cut(0)


def in_use():
    """Clusters and clusterings the functions being executed deal with, the innermost first."""
    out = []
    f = sys._getframe(1)
    while f is not None and len(out) < 8:
        if instants._is_ours(f.f_code):
            for v in list(f.f_locals.values()):
                if isinstance(v, (world.ModelCluster, DataClusters)) and not any(v is o for o in out) and hasattr(v, "r_data" if isinstance(v, world.ModelCluster) else "clusters"):
                    out.append(v)
        f = f.f_back
    return out[:5]


MIDDLE = ("mc-str", "mc-write", "quality", "quality-other", "growth", "value", "value-at", "valuebl", "residual", "plottable", "plottable-joined", "npars",
          "mc-copy")


def execute(plan, ctx):
    opt = optim.activate(optim.Optimizer(ctx))
    run, twin = Run(plan, ctx, opt), Run(plan, ctx, opt)
    models = 0
    for i, o in enumerate(plan["ops"]):
        with Live() as live:
            def action(seed, where):
                rng = random.Random(seed)
                ctx.count("looks-in-the-middle")
                ctx.state("middle", where)
                objs = live.objects()
                near = in_use()
                for ob in near + rng.sample(objs, min(len(objs), 4)):
                    try:
                        with world.Silent():
                            if isinstance(ob, DataClusters):
                                queries(ob, rng)
                            else:
                                p = run.looker.prepare(rng.choice(MIDDLE), rng, ob)
                                p[0]()
                    except Exception as e:
                        ctx.count("middle-%s-%s" % (type(e).__name__, str(e)[:60]))
                for name in ("str", "function-text", "part-value", "part-jacobian", "parts-sub", "transform", "derivatives"):
                    if rng.random() < 0.4:
                        try:
                            with world.Silent():
                                p = run.looker.prepare(name, rng)
                                if p is not None:
                                    p[0]()
                        except Exception as e:
                            ctx.count("middle-%s-%s" % (type(e).__name__, str(e)[:60]))

            with Middle(o["middle"], action) as mid:
                a = run.operate(o)
        b = twin.operate(o)
        what = "%d %s%s" % (i, o["op"], " with looks in %s" % mid.fired if mid.fired else "")
        ctx.check(a == b, "looks-change-result", lambda: "%s: %s, not %s" % (what, a, b))
        d = world.diff(twin.looker.everything(), run.looker.everything())
        ctx.check(d is None, "looks-change-result", lambda: "%s: %s" % (what, d))
        if run.ext.extracted is not None and len(run.ext.extracted.model):
            models += 1
        ctx.log(i, o["op"], a, mid.fired, world.result(run.ext))
        for spec in o["looks"]:
            run.look(spec, i, o["op"])
    # What is answered now is what an object never looked at answers.
    for name, seed in plan["last"]:
        answers = []
        for r in (twin, run):
            opt.start_op([])
            p = r.looker.prepare(name, random.Random(seed))
            if p is None or p[0] is None:
                continue
            try:
                with world.Silent():
                    answers.append(answer(p[0]()))
            except (world.SrMiseError, ValueError, NotImplementedError, IndexError, TypeError, KeyError, AttributeError) as e:
                answers.append([type(e).__name__, str(e)])
        if len(answers) == 2:
            d = world.diff(answers[0], answers[1])
            ctx.check(d is None, "looks-change-answer", lambda: "%s at the end: %s" % (name, d))
    if run.nlooks >= 10 and models:
        ctx.nontrivial = True


def shrink(plan):
    for i, o in enumerate(plan["ops"]):
        for k in ("faults", "looks", "middle"):
            for j in range(len(o[k])):
                p = copy.deepcopy(plan)
                del p["ops"][i][k][j]
                yield p
            if len(o[k]) > 1:
                p = copy.deepcopy(plan)
                p["ops"][i][k] = []
                yield p
        for j, s in enumerate(o["looks"]):
            if s["at"] is not None:
                p = copy.deepcopy(plan)
                p["ops"][i]["looks"][j]["at"] = None
                yield p
