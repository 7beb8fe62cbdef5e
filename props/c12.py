"""C12: multi-model results stay complete, independent and correctly ranked."""
import copy
import gc
import json
import math
import re

import numpy as np

from sim import disk, instants, world
from sim.core import SimCrash, SkipRun
from sim.world import ModelCluster, r3

from mpl_toolkits.mplot3d import Axes3D

QUICK_RUNS = 600
THOROUGH_RUNS = 100000
LIMIT = 180
LEVEL = "exploration"
RULE = (
    "a run is a history of up to 14 operations on a multi-model session: runs over 1 to 4 uncertainties (complete or stopped "
    "at an executed line), saves and loads of results and AICs through the simulated disk (complete, failing or damaged), "
    "tests, classifications, selections, plots, animations, edits of the current model, exports and queries; non-trivial: "
    "at least one run and three other operations; distinct by digest of stored results and probabilities after every operation"
)
STATE_MEASURE = "(operation, outcome, number of stored results, tested, classified)"
REAL = ["diffpy.srmise.multimodelselection", "diffpy.srmise.peakstability", "diffpy.srmise.pdfpeakextraction", "pickle",
        "matplotlib (Agg)", "everything below"]
STUB = ["disk (faults)", "instants of interrupts", "clock"]
ASSUMPTIONS = ["probabilities are compared with the published formulas to 1e-6"]
SHRINK_LISTS = ("ops",)

KINDS = ("run", "save", "load", "load", "aics", "aics", "aics", "loadaics", "classify", "classify", "classify", "select", "select",
         "select", "edit", "edit", "edit", "plot", "series", "animate", "animprobs", "animclass", "class3d", "query", "query", "export",
         "extract", "none", "gather", "gather")


def gen_op(rng, kind=None):
    k = kind or rng.choice(KINDS)
    op = {"op": k}
    if k == "run":
        errs = [r3(rng.choice([0.05, 0.1, 0.2, 0.4, 0.8, 1.5, 4.0]) * rng.uniform(0.8, 1.2)) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]
        if rng.random() < 0.15:
            errs.append(errs[0])
        op["errs"] = errs
        op["covs"] = rng.random() < 0.3
        if rng.random() < 0.2:
            op["stop"] = [int(10 ** rng.uniform(0, 5.3)), rng.choice(["KeyboardInterrupt", "MemoryError", "SimCrash"])]
    elif k in ("save", "load"):
        op["name"] = rng.choice(["a", "b"])
        op["new"] = rng.random() < 0.4
        if rng.random() < 0.3:
            op["fault"] = disk.gen_fault(rng, *(("write", ["ENOSPC", "EIO"], 6) if k == "save" else ("read", ["EIO"], 6)))
        elif k == "load" and rng.random() < 0.25:
            op["cut"] = rng.random()
    elif k == "aics":
        op["dgs"] = rng.choice(["run", "run", "own"])
        op["own"] = sorted({r3(10 ** rng.uniform(-1.5, 1)) for _ in range(rng.choice([1, 2, 3, 5]))}, reverse=rng.random() < 0.2)
        if rng.random() < 0.1:
            op["own"].append(op["own"][0])
        op["dr"] = rng.choice(["own", "own", r3(rng.uniform(0.05, 0.15))])
        op["file"] = rng.choice([None, None, "x", "y"])
        if op["file"] and rng.random() < 0.3:
            op["fault"] = disk.gen_fault(rng, "write", ["ENOSPC", "EIO"], 3)
    elif k == "loadaics":
        op["name"] = rng.choice(["x", "y"])
        op["cut"] = rng.random() if rng.random() < 0.2 else None
    elif k == "gather":
        # Models near each other, as runs of many uncertainties or data sets give; some as far apart as the tolerances.
        op["near"] = [[rng.random(), rng.choice([0.05, 0.05, 0.3, 0.01]) * rng.choice([0.0, 0.3, 0.5, -0.5, 0.8, -0.8, 1.3, -1.2, 2.0]) / 2,
                       rng.random() < 0.15, rng.random() < 0.35] for _ in range(rng.choice([1, 2, 3, 4]))]
    elif k == "classify":
        op["tol"] = rng.choice([0.05, 0.05, 0.3, 0.01, 1.0, 0.0])
        op["n"] = rng.choice([20, 60])
    elif k == "class3d":
        op["u"] = rng.randrange(1 << 30)
        op["kw"] = {}
        for name, values in (("dGs", [["list", 0, 2], ["array", 1, 3], ["list", 0, 9]]), ("highlight", [[0], [0, 1], [2]]), ("classes", [[0], [1, 0], [2, 1]]),
                             ("probfilter", [[0.0, 0.5], [0.2, 1.0], [0.5, 1.0]]), ("class_size", ["number", "fraction", "fraction"]),
                             ("norm", ["auto", "full", "full"]), ("cmap", ["viridis", "jet"]), ("highlight_cmap", ["viridis"]), ("title", [True, False, "of mine"]),
                             ("p_alpha", [0.5]), ("figure", [True]), ("subplot", [221]), ("cbpos", [[0.8, 0.1, 0.1, 0.5]]), ("scale", [2.0, 0.5]),
                             ("shrink", [0.5])):
            if rng.random() < 0.25:
                op["kw"][name] = rng.choice(values)
    elif k in ("select", "edit", "query", "animate"):
        op["u"] = rng.randrange(1 << 30)
        op["v"] = rng.random()
    return op


def generate(rng, tier):
    case = world.gen_case(rng, "tiny", cls="PDF")
    if rng.random() < 0.3:
        case["initial"] = world.gen_initial(rng, case)
    ops = [gen_op(rng, "run")]
    ops[0].pop("stop", None)
    n = rng.randint(4, 13)
    for _ in range(n):
        op = gen_op(rng)
        if op["op"] == "run" and sum(o["op"] == "run" for o in ops) > 2:
            op = gen_op(rng, "aics")
        ops.append(op)
    if rng.random() < 0.25:
        ops.insert(1, gen_op(rng, "gather"))
    # Sessions mostly test and classify before they look at the ranking.
    if rng.random() < 0.8:
        ops.insert(rng.randint(1, 2), gen_op(rng, "aics"))
        ops.insert(rng.randint(2, 4), gen_op(rng, "classify"))
    if rng.random() < 0.3:
        # Variants of the models, ranked differently from one uncertainty to the next, and shown.
        ops[0]["errs"] = sorted(r3(10 ** rng.uniform(-1.3, 0.8)) for _ in range(rng.choice([2, 2, 3])))
        g = gen_op(rng, "gather")
        g["near"] = [[rng.random(), rng.choice([0.001, 0.003, 0.01, 0.02]) * rng.uniform(0.5, 2), True, True] for _ in range(rng.choice([2, 3, 4]))]
        a = gen_op(rng, "aics")
        a.update(dgs="own", own=sorted(r3(10 ** rng.uniform(-2, 1)) for _ in range(rng.choice([4, 6, 8]))))
        a.pop("fault", None)
        c = gen_op(rng, "classify")
        c["tol"] = rng.choice([0.05, 0.3])
        shown = [gen_op(rng, "animclass"), gen_op(rng, "class3d")]
        at = rng.choice([1, len(ops)])
        ops[at:at] = [g, a, c] + shown
    return {"case": case, "ops": ops, "bufsize": rng.choice([0, 0, 64, 700])}


# --- reference --------------------------------------------------------------------


def stat(em, model, baseline, r, y, dg):
    total = np.zeros(len(r))
    for p in model:
        total = total + np.asarray(p.value(r))
    if baseline is not None:
        total = total + np.asarray(baseline.value(r))
    chisq = float((((y - total) / dg) ** 2).sum())
    k = int(sum(int(np.sum(p.free)) for p in model))
    n = len(r)
    if em is world.AICc:
        n = max(n, k + 2)
        return chisq + 2.0 * k + 2.0 * k * (k + 1) / (n - k - 1)
    return chisq + 2.0 * k


def close(a, b, rel=1e-6):
    return a == b or abs(a - b) <= rel * (1 + abs(a) + abs(b))


def probs_of(stats):
    lo = min(stats)
    w = [math.exp(-0.5 * min(s - lo, 1400)) for s in stats]
    t = sum(w)
    return [v / t for v in w]


class Session(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.disk = disk.activate(disk.SimDisk(ctx, (), plan["bufsize"]))
        self.case = plan["case"]
        self.text = None  # what the extraction was loaded from
        self.own = {}  # uncertainty -> result of its own extraction
        self.ms = world.MultimodelSelection()
        self.ms.setppe(world.make_extraction(self.case))
        self.stored = {"results": [], "functions": []}
        self.files = {}  # name -> stored results in that file
        self.afiles = {}  # name -> (dgs, stats)
        self.tested = None  # dict dg -> stats
        self.order = None
        self.classified = None
        self.current = None
        self.nops = 0

    def reference(self, e):
        """What an extraction of its own with uncertainty e gives."""
        if e not in self.own:
            if self.text is None:
                ext = world.make_extraction(self.case)
            else:
                ext = world.PDFPeakExtraction()
                ext.readstr(self.text)
            with world.Silent():
                ext.clearcalc()
                ext.setvars(quiet=True, effective_dy=e)
                try:
                    ext.extract()
                except Exception as err:
                    self.own[e] = err
                    return err
            r = ext.extracted.r_cluster
            names = world.Names()
            self.own[e] = {"results": [[e, world.snap_parts(ext.extracted.model, names), world.snap_part(ext.extracted.baseline, names),
                                        (r[-1] - r[0]) / (len(r) - 1)]], "functions": names.sigs}
        return self.own[e]

    def one(self, i):
        """Snapshot of a single stored result with its own functions."""
        ps = world.PeakStability()
        ps.results = [self.ms.results[i]]
        return world.snap_results(ps)

    def unchanged(self, what):
        d = world.diff(self.stored, world.snap_results(self.ms))
        self.ctx.check(d is None, "stored-results-changed", lambda: "%s: %s" % (what(), d))

    # --- operations

    def run(self, op, what):
        ms, ctx = self.ms, self.ctx
        stop = op.get("stop")
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash}
        inj = instants.Injector(stop[0] if stop else None, exc[stop[1]]("simulated") if stop else None)
        wants = [self.reference(e) for e in op["errs"]]
        bad = [w for w in wants if isinstance(w, Exception)]
        fired = False
        out = None
        try:
            with inj:
                out = ms.run(op["errs"], op["covs"])
        except (KeyboardInterrupt, MemoryError, SimCrash):
            if inj.fired is None:
                raise
            fired = True
            ctx.fault("interrupt-" + stop[1])
        except Exception as e:
            ctx.check(bad, "run-failed", lambda: "%s: %r" % (what(), e))
            ctx.check(any(type(e) is type(b) for b in bad), "run-failed-otherwise", lambda: "%s: %r, alone %r" % (what(), e, bad[0]))
            fired = True
        if inj.fired and not fired:
            fired = True  # taken for a failure of the optimizer
            ctx.probe("interrupt swallowed")
            self.stored = world.snap_results(ms)
            self.tested = self.classified = None
            return
        n = len(ms.results)
        if not fired:
            ctx.check(n == len(op["errs"]), "results-missing", what)
            ctx.check(len(out) == (n if op["covs"] else 0), "covariances-missing", what)
        begun = not fired or world.diff(self.stored, world.snap_results(ms)) is not None
        ctx.check(n <= len(op["errs"]) or not begun, "too-many-results", what)
        for i in range(n if begun else 0):
            got = self.one(i)
            want = wants[i]
            d = world.diff(want, got, rel=1e-12)
            ctx.check(d is None, "not-its-own-result", lambda: "%s: result %d: %s" % (what(), i, d))
        self.stored = world.snap_results(ms)
        self.tested = self.classified = None
        self.current = None
        if not fired and n:
            self.selected(n - 1, what)

    def gather(self, op, what):
        """The user adds results of other extractions, here like those there are."""
        ms = self.ms
        n = len(ms.results)
        if not n or n > 6 or any(r[1] is None or r[2] is None for r in ms.results):
            return "no results"
        for u, v, both, fixed in op["near"]:
            e, model, bl, dr = ms.results[int(u * n)]
            model = model.copy()
            for p in model[: None if both else 1]:
                p.pars[-1] *= 1 + v
                if fixed:
                    # fewer free parameters: better or worse by the uncertainty tested
                    p.free[-1] = False
            ms.results.append([e, model, bl.copy(), dr])
        self.stored = world.snap_results(ms)
        self.tested = self.classified = None
        return "gathered"

    def save(self, op, what):
        d, ctx = self.disk, self.ctx
        name = "r" + op["name"]
        if op.get("fault"):
            d.arm([op["fault"]])
        err = None
        try:
            self.ms.save(d.path(name))
        except Exception as e:
            err = e
        hard = d.hard_fired()
        d.end_call()
        d.clear()
        if err is None:
            ctx.check(not hard, "failed-save-not-reported", what)
            self.files[name] = (self.stored, self.ms.ppe.writestr())
        else:
            ctx.check(hard, "save-failed", lambda: "%s: %r" % (what(), err))
            self.files.pop(name, None)
            d.remove(name)

    def load(self, op, what):
        d, ctx = self.disk, self.ctx
        name = "r" + op["name"]
        if name not in self.files:
            return "no file"
        target = world.MultimodelSelection() if op["new"] else self.ms
        path = d.path(name)
        if op.get("cut") is not None:
            data = d.get(name)
            d.put("cut", data[: int(op["cut"] * (len(data) - 1))])
            path = d.path("cut")
            ctx.fault("disk-truncated")
        if op.get("fault"):
            d.arm([op["fault"]])
        err = None
        try:
            target.load(path)
        except Exception as e:
            err = e
        hard = d.hard_fired()
        leaked = d.still_open()
        d.end_call()
        d.clear()
        del d.handles[:]
        ctx.check(not leaked, "file-left-open", what)
        want, text = self.files[name]
        if err is not None:
            expected = hard or op.get("cut") is not None or not want["results"]
            ctx.check(expected, "load-failed", lambda: "%s: %r" % (what(), err))
            if want["results"]:
                if op["new"]:
                    ctx.check(not target.results and target.ppe is None, "half-loaded", what)
                else:
                    self.unchanged(what)
            else:
                self.stored = world.snap_results(self.ms)
                self.files.pop(name)
            return "failed"
        ctx.check(not hard and op.get("cut") is None, "damage-not-reported", what)
        got = world.snap_results(target)
        dd = world.diff(want, got)
        ctx.check(dd is None, "results-not-restored", lambda: "%s: %s" % (what(), dd))
        self.ms = target
        self.text = text
        self.own = {}
        self.stored = got
        self.tested = self.classified = None
        self.current = 0
        self.selected(0, what)
        return "loaded"

    def aics(self, op, what):
        ms, ctx, d = self.ms, self.ctx, self.disk
        if not ms.results:
            return "no results"
        dgs = op["own"] if op["dgs"] == "own" else sorted({float(r[0]) for r in ms.results})
        dr = ms.results[0][3] if op["dr"] == "own" else op["dr"]
        name = op["file"]
        path = None if name is None else d.path("a" + name)
        if op.get("fault"):
            d.arm([op["fault"]])
        err = None
        try:
            ms.makeaics(np.array(dgs) if op["dgs"] == "own" else dgs, dr, path)
        except Exception as e:
            err = e
        hard = d.hard_fired()
        d.end_call()
        d.clear()
        if err is not None:
            ctx.check(hard, "test-failed", lambda: "%s: %r" % (what(), err))
            self.afiles.pop(name, None)
        else:
            ctx.check(not hard, "failed-save-not-reported", what)
        r, y = ms.ppe.resampledata(dr)[:2]
        want = {}
        for dg in dgs:
            want[float(dg)] = [stat(ms.ppe.error_method, res[1], res[2], r, y, dg) for res in ms.results]
        self.tested = want
        self.order = [float(v) for v in dgs]
        self.classified = None
        self.ranking(what)
        if name is not None and err is None:
            self.afiles[name] = (dict((k, list(v)) for k, v in want.items()),
                                 [[float(a.stat) for a in ms.aics[dg]] for dg in sorted(want)])
        return "tested"

    def loadaics(self, op, what):
        ms, ctx, d = self.ms, self.ctx, self.disk
        if op["name"] not in self.afiles or not ms.results or ms.ppe is None:
            return "no file"
        want, exact = self.afiles[op["name"]]
        if len(exact[0]) != len(ms.results):
            return "of other results"
        path = d.path("a" + op["name"])
        if op["cut"] is not None:
            data = d.get("a" + op["name"])
            d.put("cut", data[: int(op["cut"] * (len(data) - 1))])
            ctx.fault("disk-truncated")
            before = self.ranks()
            try:
                ms.loadaics(d.path("cut"))
            except Exception:
                dd = world.diff(before, self.ranks())
                ctx.check(dd is None, "changed-by-failed-load", lambda: "%s: %s" % (what(), dd))
                return "failed"
            ctx.check(False, "damage-not-reported", what)
        ms.loadaics(path)
        got = [[float(a.stat) for a in ms.aics[dg]] for dg in sorted(want)]
        ctx.check(got == exact, "aics-not-restored", lambda: "%s: %s, not %s" % (what(), got, exact))
        self.tested = want
        self.order = sorted(want)
        self.classified = None
        self.ranking(what)
        return "loaded"

    def ranks(self):
        ms = self.ms
        return [world._plain(np.asarray(ms.dgs)), sorted((repr(k), v) for k, v in ms.dgs_idx.items()),
                sorted((repr(k), [a.stat for a in v]) for k, v in ms.aics.items()),
                sorted((repr(k), world._plain(v)) for k, v in ms.aicprobs.items())]

    def ranking(self, what):
        """AICs and probabilities of models against the definitions."""
        ms, ctx = self.ms, self.ctx
        ctx.check([float(v) for v in ms.dgs] == self.order, "wrong-uncertainties", lambda: "%s: %s, not %s" % (what(), ms.dgs, self.order))
        ctx.check(sorted(map(float, ms.aics)) == sorted(self.tested), "aics-of-other-tests",
                  lambda: "%s: %s, tested %s" % (what(), sorted(ms.aics), sorted(self.tested)))
        n = len(ms.results)
        for dg in ms.dgs:
            want = self.tested[float(dg)]
            stats = [float(a.stat) for a in ms.aics[dg]]
            ctx.check(len(stats) == n, "models-missing", lambda: "%s: %d AICs of %d models" % (what(), len(stats), n))
            ctx.check(all(close(a, b) for a, b in zip(stats, want)), "wrong-aic", lambda: "%s: %s, not %s (dg=%s)" % (what(), stats, want, dg))
            self.probabilities([float(v) for v in ms.aicprobs[dg]], stats, list(ms.sortedprobs[dg]), "models", what)
            self.weights(ms.aicweights[dg], ms.aicprobs[dg], what)
            ctx.check(ms.dgs[ms.dgs_idx[dg]] == dg, "wrong-index", what)

    def weights(self, w, p, what):
        """Weights are in the proportions of the probabilities."""
        w, p = np.asarray(w, dtype=float), np.asarray(p, dtype=float)
        self.ctx.check(len(w) == len(p) and np.allclose(w * p.max(), p * w.max(), rtol=1e-9, atol=1e-300), "wrong-weights",
                       lambda: "%s: %s for probabilities %s" % (what(), w, p))

    def probabilities(self, p, stats, order, of, what):
        ctx = self.ctx
        n = len(stats)
        info = lambda: "%s: probabilities %s, AICs %s, order %s" % (what(), p, stats, order)
        ctx.check(len(p) == n, "%s-missing" % of, info)
        ctx.check(all(v >= 0 for v in p) and abs(sum(p) - 1) < 1e-9, "not-probabilities-of-" + of, info)
        ctx.check(all(close(a, b) for a, b in zip(p, probs_of(stats))), "wrong-probability-of-" + of, info)
        ctx.check(sorted(order) == list(range(n)), "order-incomplete", info)
        ctx.check(all(p[a] <= p[b] for a, b in zip(order, order[1:])), "wrong-order-of-" + of, info)
        for i in range(n):
            for j in range(n):
                if stats[i] < stats[j]:
                    ctx.check(p[i] >= p[j], "ranked-against-aic", info)

    def classify(self, op, what):
        ms, ctx = self.ms, self.ctx
        if not ms.results or self.tested is None:
            return "not tested"
        x = np.asarray(ms.ppe.x)
        r = np.linspace(x[0], x[-1], op["n"])
        tol = op["tol"]
        ms.classify(r, tol)
        classes = [list(c) for c in ms.classes]
        n = len(ms.results)
        info = lambda: "%s: %s" % (what(), classes)
        ctx.check(sorted(i for c in classes for i in c) == list(range(n)), "not-in-exactly-one-class", info)
        ctx.check(all(ms.classes_idx[i] == k for k, c in enumerate(classes) for i in c) and len(ms.classes_idx) == n, "wrong-class", info)
        ctx.check(ms.class_tolerance == tol, "wrong-tolerance", what)
        if tol > 0:
            self.members(classes, r, tol, info)
        self.classified = (classes, tol)
        self.classranking(what)
        return "%d classes" % len(classes)

    def members(self, classes, r, tol, info):
        """Members match the exemplar of their class and of none before."""
        ms, ctx = self.ms, self.ctx

        def alike(i, j, t):
            (_, a, abl, _), (_, b, bbl, _) = ms.results[i], ms.results[j]
            if len(a) != len(b) or abl.npars() != bbl.npars() or any(p.npars() != q.npars() for p, q in zip(a, b)):
                return False
            for p, q in list(zip(a, b)) + [(abl, bbl)]:
                u, v = float(np.sum(np.asarray(p.value(r)) ** 2)), float(np.sum(np.asarray(q.value(r)) ** 2))
                if abs(u - v) > t * min(u, v) + 1e-12 * (t - tol) / tol * max(u, v):
                    return False
            return True

        for k, c in enumerate(classes):
            for i in c[1:]:
                ctx.check(alike(i, c[0], tol * 1.000001), "unlike-models-in-a-class", lambda: "%s: %d and %d" % (info(), i, c[0]))
            for i in c:
                for b in classes[:k]:
                    if b[0] < i:
                        ctx.check(not alike(i, b[0], tol * 0.999999), "like-models-in-two-classes", lambda: "%s: %d and %d" % (info(), i, b[0]))

    def classranking(self, what):
        ms, ctx = self.ms, self.ctx
        classes = self.classified[0]
        bests = []
        bestclasses = []
        for dg in ms.dgs:
            stats = [float(a.stat) for a in ms.aics[dg]]
            info = lambda: "%s: dg %s, AICs %s, classes %s, in order %s" % (what(), dg, stats, classes, ms.sortedclasses[dg])
            ctx.check([sorted(c) for c in ms.sortedclasses[dg]] == [sorted(c) for c in classes], "classes-changed-by-sorting", info)
            for c in ms.sortedclasses[dg]:
                ctx.check(all(stats[a] >= stats[b] for a, b in zip(c, c[1:])), "wrong-order-in-class", info)
            best = [min(stats[i] for i in c) for c in classes]
            self.probabilities([float(v) for v in ms.classprobs[dg]], best, list(ms.sortedclassprobs[dg]), "classes", what)
            self.weights(ms.classweights[dg], ms.classprobs[dg], what)
            k = ms.sortedclassprobs[dg][-1]
            bests.append(int(ms.sortedclasses[dg][k][-1]))
            bestclasses.append(int(k))
            ctx.check(stats[bests[-1]] == min(stats), "best-model-not-best", info)
        ctx.check(sorted(set(bests)) == [int(v) for v in ms.bestmodels()], "wrong-best-models", what)
        ctx.check(sorted(set(bestclasses)) == [int(v) for v in ms.bestclasses()], "wrong-best-classes", what)
        for i in range(len(ms.results)):
            want = [float(dg) for dg, b in zip(ms.dgs, bests) if b == i]
            got = [float(v) for v in ms.modelbestdgs(i)]
            ctx.check(got == want, "wrong-best-uncertainties", lambda: "%s: model %d: %s, not %s" % (what(), i, got, want))
        for k in range(len(classes)):
            want = [float(dg) for dg, b in zip(ms.dgs, bestclasses) if b == k]
            got = [float(v) for v in ms.classbestdgs(k)]
            ctx.check(got == want, "wrong-best-uncertainties", lambda: "%s: class %d: %s, not %s" % (what(), k, got, want))

    def query(self, op, what):
        ms, ctx = self.ms, self.ctx
        if self.tested is None:
            return "not tested"
        u = op["u"]
        dg = ms.dgs[u % len(ms.dgs)]
        stats = [float(a.stat) for a in ms.aics[dg]]
        n = len(stats)
        near = float(dg) * (1 + 1e-9 * (op["v"] - 0.5))
        ctx.check(ms.dg_key(near) == dg, "wrong-key", what)
        m = ms.get_model(dg, cls=None)
        info = lambda: "%s: dg %s AICs %s" % (what(), dg, stats)
        ctx.check(close(stats[m], min(stats), 1e-9), "wrong-best-model", lambda: "%s: %s" % (info(), m))
        order = [ms.get_model(dg, cls=None, morder=k) for k in range(n)]
        ctx.check(sorted(order) == list(range(n)), "order-incomplete", lambda: "%s: %s" % (info(), order))
        p = [ms.get_prob(dg, cls=None, morder=k) for k in range(n)]
        ctx.check(all(a >= b for a, b in zip(p, p[1:])), "wrong-order", lambda: "%s: %s" % (info(), p))
        a, dgo, mo, nf = ms.get(dg, "aic", "dG", "model", "nfree", cls=None)
        ctx.check(dgo == dg and mo == m and a == stats[m], "wrong-values", lambda: "%s: %s" % (info(), (a, dgo, mo, nf)))
        res = ms.results[m]
        want = int(sum(int(np.sum(q.free)) for q in res[1])) + (0 if res[2] is None else int(np.sum(res[2].free)))
        ctx.check(nf == want, "wrong-number-of-free-parameters", lambda: "%s: %s, not %s" % (info(), nf, want))
        ctx.check(ms.maxprobmodel_bymodel(dg) == m, "wrong-best-model", info)
        i = u % n
        best = ms.maxprobdG_bymodel(i)
        pr = [float(ms.aicprobs[g][i]) for g in ms.dgs]
        ctx.check(float(ms.aicprobs[best][i]) == max(pr), "wrong-best-uncertainty", lambda: "%s: %s of %s" % (info(), best, pr))
        if self.classified is None:
            return "models"
        classes = self.classified[0]
        cb = [min(stats[j] for j in c) for c in classes]
        corder = u // 7 % len(classes)
        k = ms.get_class(dg, corder=corder)
        ctx.check(close(cb[k], sorted(cb)[corder], 1e-9) or probs_of(cb)[k] == probs_of(cb)[int(np.argsort(cb)[corder])], "wrong-class",
                  lambda: "%s: class %s of %s" % (info(), k, cb))
        morder = u // 11 % len(classes[k])
        m = ms.get_model(dg, corder=corder, morder=morder)
        ctx.check(m in classes[k] and stats[m] == sorted(stats[j] for j in classes[k])[morder], "wrong-model-of-class",
                  lambda: "%s: %s of class %s" % (info(), m, classes[k]))
        m0 = ms.get_model(dg)
        ctx.check(close(stats[m0], min(stats), 1e-9), "wrong-best-model", info)
        ctx.check(ms.maxprobmodel_byclass(dg) == m0 and ms.get_model(dg, cls=ms.classes_idx[m0]) == m0, "wrong-best-model", info)
        c0, p0, m1, a1 = ms.get(dg, "class", "prob", "model", "aic")
        ctx.check(m1 == m0 and c0 == ms.classes_idx[m0] and float(p0) == float(ms.classprobs[dg][c0]) and a1 == stats[m0], "wrong-values",
                  lambda: "%s: %s" % (info(), (c0, p0, m1, a1)))
        best = ms.maxprobdG_byclass(i)
        kk = ms.classes_idx[i]
        pr = [float(ms.classprobs[g][kk]) for g in ms.dgs]
        ctx.check(float(ms.classprobs[best][kk]) == max(pr), "wrong-best-uncertainty", lambda: "%s: %s of %s" % (info(), best, pr))
        return "classes"

    def selected(self, i, what):
        """The extraction shows stored model i."""
        ms, ctx = self.ms, self.ctx
        ppe = ms.ppe
        e, model, bl, dr = ms.results[i]
        ctx.check(ms.current == i, "wrong-current", lambda: "%s: %s" % (what(), ms.current))
        mc = ppe.extracted
        ctx.check(isinstance(mc, ModelCluster), "nothing-selected", what)
        a, b = world.Names(), world.Names()
        d = world.diff([world.snap_parts(model, a), world.snap_part(bl, a), a.sigs], [world.snap_parts(mc.model, b), world.snap_part(mc.baseline, b), b.sigs])
        ctx.check(d is None, "another-model-selected", lambda: "%s: %s" % (what(), d))
        ctx.check(np.allclose(np.asarray(ppe.effective_dy), e, rtol=1e-12, atol=0), "uncertainty-of-another-model",
                  lambda: "%s: %s, not %s" % (what(), ppe.effective_dy, e))
        r = np.asarray(mc.r_data)
        ctx.check(len(r) < 2 or abs((r[-1] - r[0]) / (len(r) - 1) - dr) < 1e-6 * dr + 1e-9, "sampling-of-another-model",
                  lambda: "%s: %s, not %s" % (what(), (r[-1] - r[0]) / (len(r) - 1), dr))
        for p in mc.model:
            ctx.check(not any(p is q for res in ms.results for q in res[1]), "shares-a-peak", what)
            ctx.check(not any(np.shares_memory(p.pars, q.pars) for res in ms.results for q in res[1]), "shares-parameters", what)
        self.current = i

    def select(self, op, what):
        ms = self.ms
        if not ms.results:
            return "no results"
        i = op["u"] % len(ms.results)
        ms.setcurrent(i)
        self.selected(i, what)
        return "selected"

    def edit(self, op, what):
        ms = self.ms
        mc = ms.ppe.extracted
        if mc is None:
            return "nothing selected"
        u = op["u"]
        k = u % 9
        u //= 9
        if k in (0, 1) and len(mc.model):
            p = mc.model[u % len(mc.model)]
            p.pars[u // 5 % len(p.pars)] *= 1.5
        elif k == 2 and len(mc.model):
            p = mc.model[u % len(mc.model)]
            p.free[u // 5 % len(p.free)] ^= True
            p.removable = not p.removable
        elif k == 3 and mc.baseline is not None and len(mc.baseline.pars):
            mc.baseline.pars[u % len(mc.baseline.pars)] += 0.5
            mc.baseline.free[u % len(mc.baseline.free)] ^= True
        elif k == 4 and len(mc.model):
            del mc.model[u % len(mc.model)]
        elif k == 5:
            mc.fit(fitbaseline=u % 2 == 0)
        elif k == 6:
            mc.prune()
        elif k == 7:
            mc.change_slice(slice(0, 1 + u % len(mc.r_data)))
        elif k == 8 and len(mc.model):
            mc.model[0].pars[:] = 0.5
            mc.model.sort(key="position")
        return "edit %d" % k

    def show(self, k, op, what):
        ms, ctx = self.ms, self.ctx
        if not ms.results:
            return "no results"
        if k == "plot":
            if self.current is None:
                ms.setcurrent(0)
                self.current = 0
            ms.plot()
        elif k == "series":
            ms.plotseries()
        elif k == "animate":
            u = op["u"]
            old = ms.current
            ms.animate(results=None if u % 2 else [u // 2 % len(ms.results)])
            ctx.check(ms.current == old, "another-current", what)
            if old is not None:
                self.selected(old, what)
        else:
            if self.tested is None or k == "animprobs" and len(ms.dgs) != len(ms.results) or k != "animprobs" and self.classified is None:
                return "not possible"
            if k == "class3d":
                return self.class3d(op, what)
            self.animated(k, what)
            ctx.check(ms.current is not None, "nothing-current", what)
            self.selected(ms.current, what)
        return "shown"

    def animated(self, k, what):
        """Animations show, for each uncertainty in its turn, the probabilities and a most probable model."""
        ms, ctx = self.ms, self.ctx
        frames, state = [], {}
        if k == "animclass":
            p = [float(v) for v in ms.classprobs[ms.dgs[0]]]
            state["class"] = int(np.argmax(p))
        real = world.plt.draw

        def frame(*a, **kw):
            if len(frames) + 1 < len(ms.dgs):
                look(len(frames) + 1)
            frames.append(1)
            return real(*a, **kw)

        def look(n):
            dg = ms.dgs[n]
            p = [float(v) for v in (ms.aicprobs if k == "animprobs" else ms.classprobs)[dg]]
            of = ms.current if k == "animprobs" else ms.classes_idx[ms.current]
            info = lambda: "%s: frame %d of %s shows model %s; probabilities %s" % (what(), n, list(ms.dgs), ms.current, p)
            ctx.check(close(p[of], max(p)), "animation-shows-improbable", info)
            if k == "animclass" and of != state.get("class"):
                # A class newly shown is shown by its best model.
                q = [float(ms.aicprobs[dg][i]) for i in ms.classes[of]]
                if n == len(frames) + 1:
                    ctx.check(close(float(ms.aicprobs[dg][ms.current]), max(q)), "animation-shows-worse-model", lambda: "%s: of %s" % (info(), q))
            state["class"] = of
            axes = world.plt.gcf().axes
            lines = [(list(map(float, np.atleast_1d(ln.get_xdata()))), list(map(float, np.atleast_1d(ln.get_ydata())))) for ln in axes[0].lines]
            xs = [float(v) for v in ms.dgs] if k == "animprobs" else list(range(len(ms.classes)))
            ctx.check((xs, p) in lines, "animation-shows-other-probabilities", lambda: "%s: %s" % (info(), lines))
            ctx.check(([xs[of]], [p[of]]) in lines, "animation-marks-other", lambda: "%s: %s" % (info(), lines))
            if k == "animprobs":
                # the others mark the uncertainty
                ctx.check(any(x == [float(dg)] * 2 for x, y in lines), "animation-at-other-uncertainty", lambda: "%s: %s" % (info(), lines))
            lower = [a for a in axes if a.get_subplotspec().get_geometry()[2] == 1]
            shown = [(list(np.asarray(ln.get_xdata(), dtype=float)), list(np.asarray(ln.get_ydata(), dtype=float))) for a in lower for ln in a.lines]
            want = ms.ppe.extracted.plottable()
            for x, y in zip(want[::2], want[1::2]):
                ctx.check((list(x), list(y)) in shown, "animation-shows-other-model", info)

        world.plt.draw = frame
        try:
            if k == "animprobs":
                ms.animate_probs()
            else:
                ms.animate_classprobs()
        finally:
            world.plt.draw = real
        look(len(ms.dgs) - 1)
        ctx.probe("animated-" + k)

    def class3d(self, op, what):
        """The plot of class probabilities shows these, of the classes and uncertainties asked for."""
        ms, ctx = self.ms, self.ctx
        kw = dict(op["kw"])
        n = len(ms.classes)
        all_dgs = list(ms.dgs)
        dgs = all_dgs
        if "dGs" in kw:
            kind, lo, hi = kw["dGs"]
            dgs = all_dgs[lo:hi]
            if not dgs:
                return "not possible"
            kw["dGs"] = np.array(dgs) if kind == "array" else list(dgs)
        if "highlight" in kw:
            kw["highlight"] = [all_dgs[i % len(all_dgs)] for i in kw["highlight"]]
        if "classes" in kw:
            kw["classes"] = list(dict.fromkeys(i % n for i in kw["classes"]))
        if "figure" in kw:
            kw["figure"] = world.plt.figure()
        scale = kw.get("scale", 1.0)
        flt = kw.get("probfilter", [0.0, 1.0])
        peaks = {i: max(float(ms.classprobs[dg][i]) for dg in dgs) for i in kw.get("classes", range(n))}
        if any(abs(v - f) < 1e-9 for v in peaks.values() for f in flt if f not in (0.0, 1.0)) or any(v > 1 for v in peaks.values()):
            return "at the limit"
        want = [i for i, v in peaks.items() if flt[0] <= v <= flt[1]]
        added = []
        real = Axes3D.add_collection3d

        def add(self_, col, *a, **k2):
            added.append([np.array(p.vertices) for p in col.get_paths()])
            added.append(np.array(col.get_facecolor()))
            return real(self_, col, *a, **k2)

        Axes3D.add_collection3d = add
        try:
            r = ms.plot3dclassprobs(**kw)
        except Exception:
            if want:
                raise
            return "no classes to show"
        finally:
            Axes3D.add_collection3d = real
        info = lambda: "%s: %s; classes %s" % (what(), added[:1], ms.classes)
        if "figure" in kw:
            ctx.check(r["fig"] is kw["figure"], "another-figure", what)
        ax = r["axis"]
        ctx.check(ax.figure is r["fig"] and r["cbaxis"].figure is r["fig"], "another-figure", what)
        ctx.check([t.get_text() for t in ax.get_yticklabels()] == [str(i) for i in want], "shows-other-classes", info)
        ctx.check(len(added) == 2 and len(added[0]) == len(want), "shows-other-classes", info)
        for verts, i in zip(added[0], want):
            curve = [[float(dg) * scale, float(ms.classprobs[dg][i])] for dg in dgs]
            curve = [[curve[0][0], 0.0]] + curve + [[curve[-1][0], 0.0]]
            ctx.check(np.allclose(verts[: len(curve)], curve, rtol=1e-12, atol=0) and not verts[len(curve):, 1].any(), "shows-other-probabilities", info)
        # Colours are those the colour bar gives to the sizes of the classes.
        cb = r["cb"]
        # (Equal fractions alone make an empty range, which colour bars widen.)
        widened = kw.get("class_size") == "fraction" and kw.get("norm") != "full" and len({len(ms.classes[i]) for i in want}) == 1
        for c, i in zip(added[1], [] if widened else want):
            size = len(ms.classes[i]) / (float(len(ms.results)) if kw.get("class_size") == "fraction" else 1)
            ctx.check(np.allclose(c[:3], cb.cmap(cb.norm(size))[:3]), "wrong-colour", lambda: "%s: %s of class %d" % (info(), c, i))
        lines = sorted([float(v) for v in np.ravel(ln.get_data_3d())] for ln in ax.lines)
        marks = sorted([float(dg) * scale] * 2 + [float(z)] * 2 + [0.0, float(ms.classprobs[dg][i])] for dg in kw.get("highlight", []) for z, i in enumerate(want))
        ctx.check(np.shape(lines) == np.shape(marks) and np.allclose(lines, marks, rtol=1e-12, atol=0), "highlights-other", lambda: "%s: %s, not %s" % (what(), lines, marks))
        sup = r["fig"].get_suptitle()
        title = kw.get("title", True)
        if title is True:
            m = re.search(r"(\d+)/(\d+) classes with (\d+)/(\d+) models", sup)
            counts = (len(want), n, sum(len(ms.classes[i]) for i in want), len(ms.results))
            ctx.check(m is not None and tuple(map(int, m.groups())) == counts, "wrong-title", lambda: "%s: %r, not %s" % (what(), sup, counts))
        else:
            ctx.check(sup == (title or ""), "wrong-title", lambda: "%s: %r" % (what(), sup))
        ctx.probe("class-plot")
        return "shown"

    def export(self, op, what):
        ms, ctx = self.ms, self.ctx
        if ms.ppe.extracted is None:
            return "nothing selected"
        text = ms.ppe.writestr()
        back = world.PDFPeakExtraction()
        back.readstr(text)
        a, b = world.snap_parts(ms.ppe.extracted.model), None if back.extracted is None else world.snap_parts(back.extracted.model)
        d = world.diff(a, b)
        ctx.check(d is None, "selected-model-not-saved", lambda: "%s: %s" % (what(), d))
        return "exported"


def execute(plan, ctx):
    s = Session(plan, ctx)
    ms = s.ms
    for i, op in enumerate(plan["ops"]):
        k = op["op"]
        what = lambda: "operation %d %s" % (i, json.dumps(op))
        with world.Silent():
            if k == "run":
                r = s.run(op, what)
            elif k == "save":
                r = s.save(op, what) if s.ms.results else "no results"
            elif k == "load":
                r = s.load(op, what)
            elif k == "aics":
                r = s.aics(op, what)
            elif k == "loadaics":
                r = s.loadaics(op, what)
            elif k == "gather":
                r = s.gather(op, what)
            elif k == "classify":
                r = s.classify(op, what)
            elif k == "select":
                r = s.select(op, what)
            elif k == "edit":
                r = s.edit(op, what)
            elif k == "query":
                r = s.query(op, what)
            elif k == "export":
                r = s.export(op, what)
            elif k == "extract":
                try:
                    s.ms.ppe.clearcalc()
                    s.ms.ppe.setvars(quiet=True, effective_dy=0.3)
                    s.ms.ppe.extract()
                except Exception:
                    pass
                r, s.current = None, None
            elif k == "none":
                s.ms.setcurrent(None)
                ctx.check(s.ms.current is None and s.ms.ppe.extracted is None, "still-selected", what)
                r, s.current = None, None
            else:
                try:
                    r = s.show(k, op, what)
                finally:
                    world.plt.close("all")
        s.unchanged(what)
        if s.tested is not None:
            s.ranking(what)
        if s.classified is not None:
            s.classranking(what)
        s.nops += r not in ("no results", "no file", "nothing selected", "not tested", "not possible")
        ctx.state(k, r, len(s.stored["results"]), s.tested is not None, s.classified is not None)
        ctx.log(i, k, r, s.stored, s.ranks() if s.tested is not None else None, s.classified)
    if s.nops > 3:
        ctx.nontrivial = True
    ctx.count("session_operations", s.nops)


def shrink(plan):
    for k in ("initial", "rng", "dy", "baseline"):
        if plan["case"].get(k):
            q = copy.deepcopy(plan)
            q["case"][k] = None
            yield q
    for i, op in enumerate(plan["ops"]):
        if op["op"] == "run" and len(op["errs"]) > 1:
            q = copy.deepcopy(plan)
            del q["ops"][i]["errs"][-1]
            yield q
        for f in ("stop", "fault", "cut"):
            if op.get(f) is not None:
                q = copy.deepcopy(plan)
                q["ops"][i][f] = None
                yield q
