"""C10: results depend on the inputs only."""
import copy
import gc
import os
import pickle
import random
import signal
import warnings

import numpy as np

from sim import core, ops, world
from sim.world import r3

QUICK_RUNS = 700
THOROUGH_RUNS = 60000
LIMIT = 150
LEVEL = "exploration"
RULE = (
    "a run performs a history of operations (extractions, fits, estimates, saves, loads, multi-model runs, AIC tables, "
    "PDF files) several times, each under other ambient conditions: clock and its jumps, user, directory, time zone, "
    "generator state, print options, floating-point error settings, warning filters, garbage collection, object hashes, "
    "earlier work of the process; or in a fresh interpreter with another hash seed; the results are compared bit by bit; "
    "non-trivial: at least one other condition; distinct by digest of conditions and results"
)
STATE_MEASURE = "(ambient condition, operations, class, baseline kind)"
REAL = ["all of diffpy.srmise used by the operations", "scipy leastsq", "files"]
STUB = ["clock", "user and environment", "hashes of model parts, functions and clusters"]
ASSUMPTIONS = ["floating-point error settings which raise exceptions are not used"]
SHRINK_LISTS = ("ops", "ambient")

KINDS = ["extract", "extract", "fit", "fit", "estimate", "save", "load", "summary", "multi", "set", "pdf", "again", "default",
         "addpeak", "reload"]
AMBIENT = ["clock", "user", "cwd", "random", "print", "err", "warn", "gc", "hash", "hash", "history", "history", "tz",
           "repeat", "used"]


def generate(rng, tier):
    case = world.gen_case(rng, "tiny")
    if rng.random() < 0.4:
        # Several functions, whose order matters.
        for _ in range(rng.choice([1, 2])):
            case["pf"].append([rng.choice(["Gaussian", "GaussianOverR"]), r3(rng.uniform(0.5, 1.5))])
    if case["cls"] == "PDF" and rng.random() < 0.5 and not case["qmax"]:
        case["qmax"] = rng.choice([None, "automatic", r3(np.pi / (case["dx"] * rng.uniform(1.0, 1.6)))])
    olist = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        k = rng.choice(KINDS)
        if k in ("set", "addpeak", "estimate"):
            olist.append(ops.gen_op(rng, case, (k,)))
        else:
            olist.append({"op": k})
    if not any(o["op"] in ("extract", "fit", "multi") for o in olist):
        olist.append({"op": rng.choice(["extract", "fit"])})
    amb = []
    for _ in range(rng.choice([1, 1, 2])):
        amb.append([gen_ambient(rng, case) for _ in range(rng.choice([1, 2, 3, 5]))])
    if rng.random() < 0.35:
        amb[0].insert(0, ["twins", [[twin(rng, case), olist if rng.random() < 0.7 else [{"op": rng.choice(["extract", "fit", "multi"])}]]
                                    for _ in range(rng.choice([1, 1, 2]))]])
    plan = {"case": case, "ops": olist, "ambient": amb}
    if rng.random() < (0.04 if tier == "quick" else 0.1):
        plan["fresh"] = rng.randrange(1, 10**6)
    return plan


def twin(rng, case):
    """Another case with much in common."""
    c = copy.deepcopy(case)
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(["areas", "positions", "noise", "n", "pf", "cres", "edy", "em", "baseline", "qmax", "rng", "initial", "flags"])
        if k == "areas":
            for p in c["peaks"]:
                p[3] = r3(p[3] * rng.uniform(0.4, 2))
        elif k == "positions":
            for p in c["peaks"]:
                p[1] = r3(p[1] + c["dx"] * rng.uniform(-3, 3))
        elif k == "noise":
            c["nseed"] += 1
            c["noise"] = c["noise"] or 0.05
        elif k == "n":
            c["n"] -= rng.choice([1, 2])
        elif k == "pf":
            c["pf"][0][-1] = r3(c["pf"][0][-1] * rng.choice([0.8, 1.2]))
        elif k == "cres":
            c["cres"] = r3((c.get("cres") or 3 * c["dx"]) * rng.choice([0.7, 1.4]))
        elif k == "edy":
            c["edy"] = r3((c.get("edy") or 0.3) * rng.choice([0.5, 2]))
        elif k == "em":
            c["em"] = rng.choice([e for e in ("AIC", "AICc") if e != c.get("em")])
        elif k == "baseline" and c.get("baseline") and c["baseline"].get("pars"):
            c["baseline"]["pars"] = [r3(v * 1.1 + 0.01) for v in c["baseline"]["pars"]]
        elif k == "qmax" and c["cls"] == "PDF":
            c["qmax"] = rng.choice([None, 0.0, r3(np.pi / (c["dx"] * rng.uniform(1.0, 1.6)))])
        elif k == "rng":
            c["rng"] = None
        elif k == "initial":
            c["initial"] = None
        elif k == "flags" and c.get("initial"):
            c["initial"] = world.gen_initial(rng, c)
    return c


def pristine(func):
    """What func returns in a copy of the process, which is not affected by it."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.setitimer(signal.ITIMER_REAL, 0)
        os.close(rfd)
        try:
            try:
                out = ("ok", func())
            except BaseException as e:
                where = core.raised_in_code(e)
                out = ("exc", (getattr(e, "kind", "unexpected-" + type(e).__name__), "%s in %s" % (str(e)[:400], where),
                               isinstance(e, core.Violation) or bool(where)))
            with os.fdopen(wfd, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(wfd)
    try:
        with os.fdopen(rfd, "rb") as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    kind, value = pickle.loads(data)
    if kind == "exc":
        if value[2]:
            raise core.Violation(value[0], value[1])
        raise RuntimeError("pristine process: %s %s" % value[:2])
    return value


def gen_ambient(rng, case):
    k = rng.choice(AMBIENT)
    v = {
        "clock": lambda: [rng.choice([0.0, 1.0, -1e9, 86399.0, 4e9, 9.4e8]), rng.choice([0, 1, -3600, 1e6])],
        "user": lambda: rng.choice(["x", "root", "a user", "\u00e9", "0.5 1.2", "produced", None]),
        "random": lambda: rng.randrange(1 << 30),
        "print": lambda: rng.choice([{"precision": 2}, {"threshold": 3, "edgeitems": 1}, {"suppress": True, "precision": 1},
                                     {"linewidth": 20}, {"floatmode": "fixed", "precision": 1}, {"sign": "+"},
                                     {"legacy": "1.13"}, {"precision": 0}]),
        "err": lambda: rng.choice(["ignore", "warn", "call"]),
        "warn": lambda: rng.choice(["always", "once", "default"]),
        "hash": lambda: rng.randrange(1 << 30),
        "history": lambda: {"case": world.gen_case(rng, "tiny"),
                            "ops": [{"op": rng.choice(["extract", "fit", "multi", "extract", "fail", "save"])}
                                    for _ in range(rng.choice([1, 2]))]},
        "used": lambda: {"case": rng.choice([world.gen_case(rng, "tiny", cls=case["cls"]), twin(rng, case)]),
                         "ops": [{"op": rng.choice(["extract", "fit", "extract", "fail", "default", "set0"])}],
                         "n": rng.randint(1, 9)},
        "tz": lambda: rng.choice(["UTC", "America/New_York", "Asia/Kolkata"]),
        "repeat": lambda: 1,
        "cwd": lambda: 1,
        "gc": lambda: 1,
    }[k]()
    return [k, v]


class Ambient(object):
    """Conditions of the process which must not matter."""

    def __init__(self, items, ctx, n):
        self.items = items
        self.ctx = ctx
        self.n = n
        self.ext = None

    def __enter__(self):
        self.env = dict(os.environ)
        self.cwd = os.getcwd()
        self.undo = []
        for k, v in self.items:
            if k == "clock":
                world.clock.jump(v[0])
                world.clock.step = v[1]
            elif k == "user":
                for name in ("LOGNAME", "USER", "LNAME", "USERNAME"):
                    os.environ.pop(name, None)
                if v is not None:
                    os.environ["LOGNAME"] = v
            elif k == "cwd":
                d = os.path.join(self.ctx.scratch, "elsewhere%d" % self.n)
                os.makedirs(d, exist_ok=True)
                os.chdir(d)
            elif k == "random":
                np.random.seed(v)
                random.seed(v)
            elif k == "print":
                np.set_printoptions(**v)
            elif k == "err":
                np.seterr(all=v)
                np.seterrcall(lambda *a: None)
            elif k == "warn":
                warnings.simplefilter(v)
            elif k == "gc":
                gc.enable()
                gc.set_threshold(5, 2, 2)
            elif k == "hash":
                self.hashes(v)
            elif k == "tz":
                os.environ["TZ"] = v
            elif k == "twins":
                for case, olist in v:
                    try:
                        perform(case, olist, os.path.join(self.ctx.scratch, "t%d" % self.n))
                    except (world.SrMiseError, ValueError):
                        pass
            elif k == "used":
                with world.Silent():
                    self.use(v)
            elif k == "history":
                with world.Silent():
                    try:
                        perform(v["case"], v["ops"], os.path.join(self.ctx.scratch, "h%d" % self.n))
                    except Exception:
                        pass  # part of the history
        return self

    def use(self, v):
        """The operations will be done with an object used for other data before."""
        ext = world.make_extraction(v["case"])
        for op in v["ops"]:
            try:
                one(ext, v["case"], op, os.path.join(self.ctx.scratch, "u%d" % self.n))
            except Exception:
                pass  # part of the history
        # A few points of the data, from which little can be determined.
        x, y = np.array(ext.x[: v["n"]]), np.array(ext.y[: v["n"]])
        new = type(ext)()
        ctx = self.ctx
        if type(ext) is world.PDFPeakExtraction:
            ext.setdata(x, y)
            new.setdata(x, y)
            a, b = world._plain(new.qmax_fromdata), world._plain(ext.qmax_fromdata)
            ctx.check(a == b, "data-set-depend-on-earlier", lambda: "qmax of %d points is %s, in a used object %s" % (v["n"], a, b))
            d = world.PDFDataSet("d")
            d.robs, d.Gobs, d.drobs, d.dGobs = list(x), list(y), [0.0] * len(x), [0.0] * len(x)
            ext.loadpdf(d)
            new.loadpdf(d)
            diff = world.diff(world.snap_ext(new), world.snap_ext(ext))
            ctx.check(diff is None, "data-loaded-depend-on-earlier", lambda: "%d points: %s" % (v["n"], diff))
        ext.clear()
        diff = world.diff(world.snap_ext(type(ext)()), world.snap_ext(ext))
        ctx.check(diff is None, "not-clear", lambda: diff)
        self.ext = ext

    def hashes(self, seed):
        """Objects hash, and sets of them are ordered, as if they were elsewhere in memory."""
        from diffpy.srmise.modelevaluators.base import ModelEvaluator

        for cls in (world.BaseFunction, world.ModelPart, world.ModelCluster, ModelEvaluator):
            if "__hash__" in cls.__dict__ or "__eq__" in cls.__dict__:
                continue
            table = {}

            def h(obj, table=table, seed=seed):
                if id(obj) not in table:
                    table[id(obj)] = (core.subseed("hash", seed, len(table)) % (1 << 61), obj)
                return table[id(obj)][0]

            cls.__hash__ = h
            self.undo.append(cls)

    def __exit__(self, *a):
        for cls in self.undo:
            del cls.__hash__
        gc.disable()
        gc.set_threshold(700, 10, 10)
        os.chdir(self.cwd)
        os.environ.clear()
        os.environ.update(self.env)
        world.reset_process()
        return False


def perform(case, olist, path, ext=None):
    """The results of all operations, as text and numbers."""
    if ext is None:
        ext = world.make_extraction(case)
    else:
        x, y = world.synth(case)
        ext.setdata(x, y, None, None if case.get("dy") is None else case["dy"] * np.ones(len(x)))
        ext.setvars(quiet=True, **world.case_vars(case))
    out = []
    for op in olist:
        k = op["op"]
        try:
            out.append([k, one(ext, case, op, path)])
        except (world.SrMiseError, ValueError) as e:
            out.append([k, type(e).__name__])
        if k in ("reload",) and isinstance(out[-1][1], dict):
            ext2 = type(ext)()
            ext2.readstr(ext.writestr())
            ext = ext2
    return out


def one(ext, case, op, path):
    k = op["op"]
    if k in ("extract", "fit"):
        return [world.snap_cov(ops.apply(ext, op)), world.result(ext)]
    if k == "again":
        # The same operation of the same object gives the same again.
        a = [world.snap_cov(world.do_extract(ext)), world.result(ext)]
        b = [world.snap_cov(world.do_extract(ext)), world.result(ext)]
        d = world.diff(a, b)
        if d is not None:
            raise core.Violation("repetition-differs", "two extractions of one object: %s" % d)
        return a
    if k == "estimate":
        r = ops.apply(ext, op)
        return [None if r is None else world.snap_part(r, world.Names()), world.snap_parts(ext.initial_peaks)]
    if k in ("set", "addpeak"):
        ops.apply(ext, op)
        return world.snap_ext(ext)
    if k == "default":
        ext.defaultvars("cres", "effective_dy", "error_method")
        return world.snap_ext(ext)
    if k == "save":
        ext.write(path)
        return world.body(open(path).read())
    if k in ("load", "reload"):
        e = type(ext)()
        e.readstr(ext.writestr())
        return world.snap_ext(e)
    if k == "summary":
        if case["cls"] != "PDF":
            return world.body(ext.writestr())
        r = world.do_fit(ext)
        ext.writepwa(path) if r is None else ext.writepwa(path, "comment")
        return world.body(open(path).read())
    if k == "multi":
        if case["cls"] != "PDF" or ext.baseline is None:
            return None
        ms = world.MultimodelSelection()
        ms.setppe(ext)
        ms.run([0.3, 0.6])
        out = [world.snap_results(ms)]
        if all(r[1] is not None and r[2] is not None for r in ms.results):
            ms.makeaics([0.2, 0.5], 2 * case["dx"], path)
            ms2 = world.MultimodelSelection()
            ms2.setppe(ext)
            ms2.results = ms.results
            ms2.loadaics(path)
            for m in (ms, ms2):
                out.append([[float(d), [float(a.stat) for a in m.aics[d]], world._plain(np.asarray(m.aicprobs[d]))]
                            for d in m.dgs])
            m.classify(ext.x)
            out.append([m.classes, [m.sortedclasses[d] for d in m.dgs], [m.sortedclassprobs[d] for d in m.dgs]])
        return out
    if k == "pdf":
        d = world.PDFDataSet("d")
        d.robs, d.Gobs = ext.x, ext.y
        d.drobs, d.dGobs = np.zeros(len(ext.x)), 0.1 * np.ones(len(ext.x))
        d.stype, d.qmax = "X", 20.0
        d.write(path + ".gr")
        g = world.PDFDataSet("g")
        g.read(path + ".gr")
        s = world.snap_pdf(g)
        s["filename"] = os.path.basename(s["filename"] or "")
        return [world.body(open(path + ".gr").read()), s]
    if k == "set0":
        ext.setvars(quiet=True, cres=0.01, effective_dy=0.01, rng=[None, None], initial_peaks=world.Peaks([]))
        return None
    if k == "fail":
        ext.setvars(quiet=True, rng=[1e3, 2e3])
        try:
            world.do_extract(ext)
        except Exception:
            pass
        return None
    raise ValueError(k)


def execute(plan, ctx):
    case, olist = plan["case"], plan["ops"]
    path = os.path.join(ctx.scratch, "file")
    with world.Silent():
        ref = pristine(lambda: perform(case, olist, path))
    for r in ref:
        ctx.log(r)
    digest = ctx.digest.hexdigest()
    for n, items in enumerate(plan["ambient"]):
        world.reset_process()
        with world.Silent(), Ambient(items, ctx, n) as a:
            got = perform(case, olist, path, a.ext)
        ctx.nontrivial = True
        names = sorted(set(k for k, _ in items))
        for k in names:
            ctx.fault("ambient-" + k)
            ctx.state(k, [o["op"] for o in olist], case["cls"], (case["baseline"] or {}).get("kind"))
        d = world.diff(ref, got)
        ctx.check(d is None, "ambient-differs", lambda: "with other %s: %s" % (names, d))
        ctx.log("ambient", names)
    if plan.get("fresh"):
        sub = {"case": case, "ops": olist, "ambient": []}
        r = core.run_fresh("C10", sub, LIMIT, hashseed=plan["fresh"], env={"TZ": "Asia/Tokyo", "LC_ALL": "C", "HOME": ctx.scratch})
        if r["status"] not in ("ok", "violation"):
            raise RuntimeError("fresh interpreter: %s" % r.get("detail"))
        ctx.fault("ambient-interpreter")
        where = [a[:200] for a, b in zip(r["trail"], ctx.trail) if a != b][:1]
        ctx.check(r["digest"] == digest, "interpreter-differs", lambda: "in a fresh interpreter with hash seed %s: %s" % (
            plan["fresh"], where))
        ctx.log("fresh")
