"""C13: logging, live plots and tracing observe an extraction without affecting it."""
import builtins
import copy
import json
import logging
import os
import sys

import numpy as np

from sim import disk, instants, world
from sim.core import SimCrash
from sim.world import srmiselog

QUICK_RUNS = 1200
THOROUGH_RUNS = 100000
LIMIT = 120
LEVEL = "exploration"
RULE = (
    "a run is a history of up to 9 changes of tracing, logging and plotting and of operations (extractions, fits, prunings, "
    "multi-model runs), some of them failing by a full or broken disk, a failing filter or an interrupt; non-trivial: at least "
    "one trace made or message logged; distinct by digest of results, traces and logs"
)
STATE_MEASURE = "(operation, outcome, filter, recursion levels seen, number of traces, log levels)"
REAL = ["diffpy.srmise.srmiselog", "logging", "matplotlib (Agg)", "diffpy.srmise.peakextraction", "diffpy.srmise.pdfpeakextraction",
        "diffpy.srmise.modelcluster", "everything below"]
STUB = ["disk (faults)", "instants of interrupts", "terminal input and output", "clock"]
ASSUMPTIONS = ["an interrupt which strikes while the tracer itself changes its level is not judged"]
SHRINK_LISTS = ("ops",)

# What a filter says, and what it means for a trace of args with tracer t.
FILTERS = {
    "True": lambda t, args: True,
    "False": lambda t, args: False,
    "self.recursion==0": lambda t, args: t.recursion == 0,
    "self.recursion>0": lambda t, args: t.recursion > 0,
    "self.recursion<=1": lambda t, args: t.recursion <= 1,
    "self.counter<4": lambda t, args: t.counter < 4,
    "len(args)==1": lambda t, args: len(args) == 1,
    "len(args)>1": lambda t, args: len(args) > 1,
    "len(args[0].model)>0": lambda t, args: len(args[0].model) > 0,
    "1/(self.counter-2)": lambda t, args: 1 / (t.counter - 2),
}
SAFE = sorted(f for f in FILTERS if "/" not in f)
LEVELS = {"debug": 10, "info": 20, "warning": 30, "error": 40, "critical": 50}
FORMAT = "%(levelname)s|%(message)s"


def gen_tracer(rng):
    filt = rng.choice([["True"], ["True"], ["self.recursion<=1"], ["self.recursion>0"], [rng.choice(SAFE)],
                       [rng.choice(SAFE), rng.choice(SAFE)], ["1/(self.counter-2)"]])
    return {"op": "tracer", "filter": filt, "store": rng.random() < 0.6,
            "file": rng.choice([None, "t", "t", "u", "sub/t"])}


def gen_op(rng, kind=None):
    k = kind or rng.choice(["work"] * 6 + ["tracer", "tracer", "level", "addfile", "addfile", "filelevel", "live", "stream"])
    if k == "tracer":
        return gen_tracer(rng)
    op = {"op": k}
    if k == "work":
        op["what"] = rng.choice(["extract", "extract", "extract", "fit", "prune", "multi", "mcfit"])
        r = rng.random()
        if r < 0.2:
            op["fault"] = disk.gen_fault(rng, rng.choice(["write", "write", "open", "close"]), ["ENOSPC", "EIO"], rng.choice([1, 3, 10, 30]))
        elif r < 0.4:
            op["stop"] = [int(10 ** rng.uniform(1, 5)), rng.choice(["KeyboardInterrupt", "MemoryError", "SimCrash"])]
    elif k in ("level", "filelevel"):
        op["level"] = rng.choice(["debug", "debug", "info", "warning", "error", "critical", 10, 15, 20, 40])
    elif k == "addfile":
        op["level"] = rng.choice([None, "debug", "info", 10, 20, 30, "error"])
        op["name"] = rng.choice(["l", "m"])
        op["fault"] = disk.gen_fault(rng, "open", ["EACCES"], 1) if rng.random() < 0.15 else None
    elif k == "live":
        op["on"] = rng.random() < 0.5
        op["wait"] = rng.random() < 0.5
    elif k == "stream":
        op["broken"] = rng.random() < 0.7
    return op


def generate(rng, tier):
    big = rng.random() < 0.35
    case = world.gen_case(rng, "small" if big else "tiny", cls=rng.choice(["PDF", "PDF", "PE"]))
    if rng.random() < 0.3:
        case["initial"] = world.gen_initial(rng, case)
    ops = [gen_tracer(rng)] if rng.random() < 0.85 else []
    ops.append(gen_op(rng, "work"))
    for _ in range(rng.randint(1, 6)):
        op = gen_op(rng)
        if op["op"] == "live" and (big or rng.random() < 0.5):
            op = gen_op(rng, "work")
        ops.append(op)
    ops.append(gen_op(rng, "work"))
    for k in ("fault", "stop"):
        ops[-1].pop(k, None)
    if sum(o["op"] == "work" for o in ops) > 4:
        n = 0
        for o in list(ops[:-1]):
            n += o["op"] == "work"
            if o["op"] == "work" and n > 3:
                ops.remove(o)
    return {"case": case, "ops": ops, "bufsize": rng.choice([0, 0, 64, 500])}


# --- the work ---------------------------------------------------------------------


def work(what, case, begin=lambda: None):
    """An operation on fresh objects; returns a snapshot of all it gives.  Calls begin where another traced operation begins."""
    ext = world.make_extraction(case)
    if what == "extract":
        return [world.snap_cov(world.do_extract(ext)), world.result(ext)]
    if what == "fit":
        return [world.snap_cov(world.do_fit(ext)), world.result(ext)]
    if what in ("prune", "mcfit"):
        names = world.Names()
        ext.defaultvars()
        x = np.array(ext.x)
        bl = ext.baseline.copy() if isinstance(ext.baseline, world.ModelPart) else None
        mc = world.ModelCluster(ext.initial_peaks.copy(),
                                bl, x, np.array(ext.y), np.array(ext.effective_dy), None, ext.error_method, ext.pf)
        for f in (0.3, 0.6, 0.62):
            pos = x[0] + f * (x[-1] - x[0])
            p = ext.pf[0].actualize([pos, 0.3, 1.0], in_format="pwa")
            mc.model.append(p)
        mc.model.sort(key="position")
        if what == "prune":
            mc.prune()
        else:
            mc.fit(fitbaseline=bl is not None)
        return [world.snap_mc(mc, names), names.sigs]
    ms = world.MultimodelSelection()
    ms.setppe(ext)
    extract = ext.extract

    def one():
        begin()
        return extract()

    ext.extract = one
    covs = ms.run([0.2, 0.7], True)
    return [[world.snap_cov(c) for c in covs], world.snap_results(ms)]


class Recorder(object):
    """All messages which are logged.

    A message is formatted once for all logs: formatting a cluster logs messages itself."""

    def __init__(self):
        self.records = []
        self.bad = []

    def filter(self, record):
        try:
            text = record.getMessage()
        except Exception as e:
            self.bad.append("%s %r: %r" % (record.msg, record.args, e))
            return True
        record.msg, record.args = text, None
        if record.exc_info:
            text += "\n" + logging.Formatter().formatException(record.exc_info)
        self.records.append((record.levelno, record.levelname, text))
        return True


class Stream(object):
    def __init__(self):
        self.text = []
        self.broken = False
        self.failed = 0

    def write(self, s):
        if self.broken:
            self.failed += 1
            raise BrokenPipeError(32, "simulated broken pipe")
        self.text.append(s)
        return len(s)

    def flush(self):
        if self.broken:
            raise BrokenPipeError(32, "simulated broken pipe")


class FileLog(object):
    def __init__(self, name, level, start, base):
        self.name, self.level, self.start, self.base = name, level, start, base
        self.expected = []  # messages since it was added
        self.faulty = False


def depth():
    """Recursion level by the calls of extract_single under way."""
    f = sys._getframe(1)
    n = 0
    while f is not None:
        n += f.f_code.co_name == "extract_single"
        f = f.f_back
    return n


class Session(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.case = plan["case"]
        self.disk = disk.activate(disk.SimDisk(ctx, (), plan["bufsize"]))
        self.tracer = srmiselog.tracer
        self.tconf = None
        self.stored = []  # (tracer, trace, snapshot, expected)
        self.reread = 0  # of them written and read back
        self.emitted = []  # expected traces of the operation
        self.bad = []
        self.wants = {}
        self.files = []
        self.chlevel = 40
        self.stream = Stream()
        srmiselog.ch.setStream(self.stream)
        self.rec = Recorder()
        srmiselog.logger.addFilter(self.rec)
        srmiselog.setlevel("error")
        self.chtext = []
        self.done = 0
        self.ntraces = 0

    def reference(self, what):
        if what not in self.wants:
            old = srmiselog.tracer
            logger = srmiselog.logger
            handlers, level, live, wait = list(logger.handlers), logger.level, srmiselog.liveplots, srmiselog.wait
            for h in handlers:
                logger.removeHandler(h)
            logger.setLevel(100)
            srmiselog.settracer()
            srmiselog.liveplotting(False, False)
            try:
                self.wants[what] = work(what, self.case)
            except Exception as e:
                self.wants[what] = e
            finally:
                srmiselog.tracer = old
                logger.setLevel(level)
                for h in handlers:
                    logger.addHandler(h)
                srmiselog.liveplotting(live, wait)
        return self.wants[what]

    # --- observation of traces

    def settracer(self, op):
        kw = {}
        if op.get("filter") is not None:
            kw["filter"] = op["filter"]
        if op["store"]:
            kw["store"] = True
        if op["file"]:
            kw["filebase"] = self.disk.path(op["file"])
        t = srmiselog.settracer(**kw)
        self.use(t, op)

    def use(self, t, op):
        self.tracer, self.tconf = t, op
        emit = t.emit

        def spy(*args, **kwds):
            level = depth()
            n = len(self.emitted)
            state = type("S", (), {"recursion": level, "counter": n})
            try:
                want = all(FILTERS[f](state, args) for f in op["filter"])
            except ZeroDivisionError:
                want = None
            expected = {"args": [world.snap_mc(a) for a in args], "recursion": level, "counter": n}
            had = len(t.trace)
            if want:
                self.emitted.append(expected)
            try:
                emit(*args, **kwds)
            except BaseException:
                if want:
                    self.emitted.pop()
                raise
            if want is None:
                self.bad.append(("filter-ignored", "%s did not raise" % op["filter"]))
            now = [world.snap_mc(a) for a in args]
            d = world.diff(expected["args"], now)
            if d is not None:
                self.bad.append(("changed-by-tracing", d))
            if op["store"]:
                new = t.trace[had:]
                if len(new) != (1 if want else 0):
                    self.bad.append(("wrong-number-of-traces", "%d traces, filter %s, recursion %d, number %d" % (len(new), op["filter"], level, n)))
                for x in new:
                    d = self.compare(expected, world.snap_trace(x))
                    if d is not None:
                        self.bad.append(("wrong-trace", d))
                    self.stored.append((t, x, world.snap_trace(x), expected))

        t.emit = spy

    def compare(self, expected, got, saved=False):
        """A trace is the union of the clusters given over all their data."""
        for k in ("recursion", "counter"):
            if got[k] != expected[k]:
                return "%s %s, not %s" % (k, got[k], expected[k])
        args = expected["args"]
        d = world.diff([a["slice"] for a in args], got["clusters"])
        if d is not None:
            return "clusters " + d
        want = dict(args[0])
        got = dict(got["mc"])
        # Functions may be numbered in another order: compare peaks with what their functions are.
        key = lambda mc, p: json.dumps([mc["functions"][p["f"]] if isinstance(p["f"], int) else p["f"], p["pars"], p["free"],
                                        p["removable"], p["static"]], sort_keys=True, default=str)
        a = sorted(key(m, p) for m in args for p in m["model"])
        b = sorted(key(got, p) for p in got["model"])
        if a != b:
            return "peaks %s, not %s" % (b, a)
        for k, mc in (("want", want), ("got", got)):
            mc["baseline"] = None if mc["baseline"] is None else key(mc, mc["baseline"])
            mc["peak_funcs"] = None if mc["peak_funcs"] is None else [mc["functions"][f] for f in mc["peak_funcs"]]
            mc.pop("functions")
            mc.pop("model")
        n = len(want["r"])
        d = got.pop("slice")
        if list(slice(*d[1:]).indices(n)) != [0, n, 1]:
            return "slice %s of %d points" % (d, n)
        del want["slice"]
        return world.diff_saved(want, got) if saved else world.diff(want, got)

    # --- operations

    def work(self, op, what):
        ctx, d = self.ctx, self.disk
        want = self.reference(op["what"])
        self.emitted = []
        stop, fault = op.get("stop"), op.get("fault")
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SimCrash": SimCrash}
        inj = instants.Injector(stop[0] if stop else None, exc[stop[1]]("simulated") if stop else None)
        base = self.tconf and self.tconf["file"]
        for n in self.tracefiles():
            d.remove(n)
        if fault:
            d.arm([fault])
        err = got = None

        def begin():
            self.traces(what, base, d.hard_fired())
            for n in self.tracefiles():
                d.remove(n)
            self.emitted = []

        try:
            with world.Silent() as out:
                if stop:
                    with inj:
                        got = work(op["what"], self.case, begin)
                else:
                    got = work(op["what"], self.case, begin)
        except (Exception, KeyboardInterrupt, SimCrash) as e:
            err = e
        hard = d.hard_fired()
        d.clear()
        if fault and hard:
            for f in self.files:
                f.faulty = True
        if inj.fired:
            ctx.fault("interrupt-" + stop[1])
        broken = self.tconf and any("/" in f for f in self.tconf["filter"])
        if self.bad:
            k, v = self.bad[0]
            ctx.check(False, k, lambda: "%s: %s" % (what(), v))
        if err is None:
            if not inj.fired:
                dd = "failed alone: %r" % want if isinstance(want, Exception) else world.diff(want, got)
                ctx.check(dd is None, "result-differs", lambda: "%s: %s" % (what(), dd))
            outcome = "ok"
        else:
            legal = inj.fired or hard and base or isinstance(err, ZeroDivisionError) and broken
            if isinstance(want, Exception) and type(want) is type(err):
                legal = True
            ctx.check(legal, "operation-failed", lambda: "%s: %r, alone %s" % (what(), err, "ok" if not isinstance(want, Exception) else repr(want)))
            outcome = type(err).__name__
        self.traces(what, base, hard)
        if inj.fired and (inj.file == "srmiselog.py" or inj.fired.split(".")[-1] in ("extract_single", "extract", "prune")):
            # Whether the level was already changed cannot be told.
            if self.tconf:
                self.settracer(self.tconf)
            else:
                srmiselog.settracer()
        self.done += 1
        return outcome, sorted({e["recursion"] for e in self.emitted}), len(self.emitted)

    def tracefiles(self):
        base = self.tconf and self.tconf["file"]
        if not base:
            return []
        root = os.path.dirname(self.disk.path(base))
        if not os.path.isdir(root):
            return []
        pre = os.path.dirname(base)
        return sorted(os.path.join(pre, n) for n in os.listdir(root) if n.startswith(os.path.basename(base) + "_"))

    def traces(self, what, base, hard):
        ctx = self.ctx
        self.ntraces += len(self.emitted)
        for t, x, s, e in self.stored:
            dd = world.diff(s, world.snap_trace(x))
            ctx.check(dd is None, "trace-changed", lambda: "%s: trace %s: %s" % (what(), s["counter"], dd))
        # Kept traces written now, after the operation (those of this operation once)
        for t, x, s, e in self.stored[self.reread:]:
            with world.Silent():
                text = t.writestr(x)
                back = world.srmiselog.TracePeaks().readstr(text)
            dd = self.compare(e, world.snap_trace(back), True)
            ctx.check(dd is None, "kept-trace-differs", lambda: "%s: kept trace %s written and read back: %s" % (what(), s["counter"], dd))
        self.reread = len(self.stored)
        if not base:
            return
        names = self.tracefiles()
        want = ["%s_%d" % (base, e["counter"]) for e in self.emitted]
        if hard:
            ctx.check(set(want) <= set(names) <= set(want) | {"%s_%d" % (base, len(want))}, "trace-files-missing",
                      lambda: "%s: %s, not %s" % (what(), names, want))
        else:
            extra = set(names) - set(want) - {"%s_%d" % (base, len(want))}
            ctx.check(set(want) <= set(names) and not extra, "trace-files-missing", lambda: "%s: %s, not %s" % (what(), names, want))
        reader = world.srmiselog.TracePeaks()
        for e, n in zip(self.emitted, want):
            got = reader.read(self.disk.path(n))
            dd = self.compare(e, world.snap_trace(got), saved=True)
            ctx.check(dd is None, "wrong-trace-file", lambda: "%s: %s: %s" % (what(), n, dd))

    # --- logs

    def seen(self):
        """The records since the last call, to every log in use."""
        recs = self.rec.records
        self.rec.records = []
        for lev, name, text in recs:
            if lev >= self.chlevel and not self.stream.broken:
                self.chtext.append(text + "\n")
            for f in self.files:
                if lev >= f.level:
                    f.expected.append("%s|%s\n" % (name, text))
        return recs

    def logs(self, what):
        ctx = self.ctx
        self.seen()
        for name, lev in sorted(LEVELS.items()):
            srmiselog.logger.log(lev, "probe of %s", name)
        recs = [r[0] for r in self.seen()]
        low = min([self.chlevel] + [f.level for f in self.files])
        missing = [lev for lev in LEVELS.values() if lev >= low and lev not in recs]
        ctx.check(not missing, "message-not-logged", lambda: "%s: levels %s with logs at %s" % (what(), missing, low))
        ctx.check(not self.rec.bad, "message-malformed", lambda: "%s: %s" % (what(), self.rec.bad))
        ctx.check("".join(self.stream.text) == "".join(self.chtext) or self.stream.failed, "wrong-default-log", what)
        for f in self.files:
            got = (self.disk.get(f.name) or b"").decode("utf8")[f.start:]
            if sum(g.name == f.name for g in self.files) > 1:
                continue  # mixed
            if f.faulty:
                want = [m for m in f.expected[-5:] if "|probe of" in m]
                ctx.check(all(m in got for m in want), "logging-stopped", lambda: "%s: %s: %r" % (what(), f.name, got[-500:]))
            else:
                w = "".join(f.expected)
                n = len(os.path.commonprefix([got, w]))
                ctx.check(got == w, "wrong-log-file",
                          lambda: "%s: %s: from %d: %r, not %r" % (what(), f.name, n, got[max(0, n - 100) : n + 200], w[max(0, n - 100) : n + 200]))

    def config(self, op, what):
        ctx, k = self.ctx, op["op"]
        self.seen()
        if k == "tracer":
            self.settracer(op)
        elif k == "level":
            srmiselog.setlevel(op["level"])
            self.chlevel = LEVELS.get(op["level"], op["level"])
        elif k == "addfile":
            if op["fault"]:
                self.disk.arm([op["fault"]])
            kw = {} if op["level"] is None else {"level": op["level"]}
            err = None
            start = len((self.disk.get(op["name"]) or b"").decode("utf8"))
            try:
                srmiselog.addfilelog(self.disk.path(op["name"]), format=FORMAT, **kw)
            except OSError as e:
                err = e
            hard = self.disk.hard_fired()
            self.disk.clear()
            ctx.check(bool(hard) == (err is not None), "failed-open-not-reported", what)
            if err is not None:
                return "failed"
            lev = op["level"]
            self.files.append(FileLog(op["name"], 20 if lev is None else LEVELS.get(lev, lev), start, None))
        elif k == "filelevel":
            try:
                srmiselog.setfilelevel(op["level"])
                ctx.check(self.files, "no-file-not-reported", what)
                self.files[-1].level = LEVELS.get(op["level"], op["level"])
            except world.SrMiseError as e:
                ctx.check(not self.files, "file-level-refused", lambda: "%s: %r" % (what(), e))
                return "refused"
        elif k == "live":
            srmiselog.liveplotting(op["on"], op["wait"])
        elif k == "stream":
            self.stream.broken = op["broken"]
            if op["broken"]:
                ctx.fault("broken-pipe")
        return "ok"


def execute(plan, ctx):
    s = Session(plan, ctx)
    old_input, old_raise = builtins.input, logging.raiseExceptions
    builtins.input = lambda *a: ""
    logging.raiseExceptions = True
    nlog = 0
    try:
        for i, op in enumerate(plan["ops"]):
            what = lambda: "operation %d %s" % (i, json.dumps(op))
            with world.Silent():
                r = s.work(op, what) if op["op"] == "work" else s.config(op, what)
                nlog += len(s.rec.records)
                s.logs(what)
            ctx.state(op["op"], op.get("what"), r, tuple(s.tconf["filter"]) if s.tconf else None, s.chlevel, tuple(f.level for f in s.files),
                      srmiselog.liveplots)
            ctx.log(i, op["op"], r, s.wants.get(op.get("what")) if not isinstance(s.wants.get(op.get("what")), Exception) else None,
                    s.emitted, len(s.chtext), [len(f.expected) for f in s.files])
    finally:
        builtins.input, logging.raiseExceptions = old_input, old_raise
        s.stream.broken = False
        srmiselog.logger.removeFilter(s.rec)
        world.plt.close("all")
    ctx.nontrivial = bool(s.ntraces or nlog)
    ctx.count("traces", s.ntraces)
    ctx.count("messages", nlog)


def shrink(plan):
    for k in ("initial", "rng", "dy", "baseline"):
        if plan["case"].get(k):
            q = copy.deepcopy(plan)
            q["case"][k] = None
            yield q
    for i, op in enumerate(plan["ops"]):
        for f in ("stop", "fault"):
            if op.get(f) is not None:
                q = copy.deepcopy(plan)
                q["ops"][i][f] = None
                yield q
