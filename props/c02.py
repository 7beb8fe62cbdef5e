"""C02: a failed save is reported and costs nothing else."""
import gc
import getpass
import json
import pickle

import numpy as np

from sim import disk, instants, ops, world
from sim.core import SkipRun

QUICK_RUNS = 1000
THOROUGH_RUNS = 300000
LIMIT = 60
LEVEL = "exploration"
RULE = (
    "a run builds an object (extraction, PDF data, peak stability, AIC tables, tracer), then performs 2-8 saves of it over "
    "the same and other names, each with faults in opening, writing or closing, a failing producer or an exception at an "
    "arbitrary line of the save, followed by a repetition without the fault; non-trivial: at least one fault fired; "
    "distinct by digest of the event log"
)
STATE_MEASURE = "(kind of save, fault, how the call ended, previous file or not)"
REAL = ["all writers of diffpy.srmise", "Python buffered and text I/O", "extraction producing what is saved"]
STUB = ["raw file layer (SimDisk)", "clock", "user name lookup"]
ASSUMPTIONS = ["files are opened through open() or io.open(); otherwise write faults cannot be placed in the save"]
SHRINK_LISTS = ("ops",)

WHAT = ["srmise", "srmise", "pwa", "pdf", "stability", "aics", "trace"]


def generate(rng, tier):
    what = rng.choice(WHAT)
    cls = "PDF" if what in ("pwa", "stability", "aics") else rng.choice(["PE", "PDF"])
    case = world.gen_case(rng, "tiny", cls=cls)
    case["how"] = rng.choice(["data", "extract", "extract", "fit"])
    if what in ("stability", "aics"):
        if not case.get("baseline") or rng.random() < 0.5:
            case["baseline"] = {"kind": "poly", "degree": 0, "pars": [0.0], "free": [True]}
    plan = {"what": what, "case": case, "errs": [0.2, 0.4], "bufsize": rng.choice([0, 0, 32, 100, 511, 2048]), "ops": []}
    for _ in range(rng.randint(2, 8)):
        t = rng.random()
        o = {"name": rng.choice(["a", "a", "b"]), "faults": [], "retry": rng.random() < 0.8}
        if t < 0.12:
            pass
        elif t < 0.30:
            o["faults"] = [{"op": "open", "nth": 0, "kind": rng.choice(["EACCES", "EIO", "ENOSPC", "EMFILE"])}]
        elif t < 0.60:
            nth = rng.choice([0, 0, 0, 1, 2, 5, 10, 20])
            o["faults"] = [disk.gen_fault(rng, "write", ["ENOSPC", "EIO", "ENOSPC"], 1)]
            o["faults"][0]["nth"] = nth
            if rng.random() < 0.3:
                o["faults"].append(disk.gen_fault(rng, "write", ["short", "EINTR"], 6))
        elif t < 0.72:
            o["faults"] = [{"op": "close", "nth": 0, "kind": rng.choice(["EIO", "ENOSPC"])}]
        elif t < 0.78:
            o["faults"] = [disk.gen_fault(rng, "write", ["short", "EINTR"], 3) for _ in range(2)]
        elif t < 0.90:
            o["produce"] = rng.choice(["user", "function", "user-key"])
        else:
            o["instant"] = rng.random()
            o["exc"] = rng.choice(["MemoryError", "KeyboardInterrupt"])
        plan["ops"].append(o)
    return plan


class Fragile(world.Gaussian):
    """A user's peak function whose parameters cannot be written at the moment."""

    def writestr(self, baselist):
        raise RuntimeError("simulated: cannot be written")


class Unpicklable(world.Peaks):
    def __reduce_ex__(self, proto):
        raise RuntimeError("simulated: cannot be pickled")


class Subject(object):
    def __init__(self, plan, ctx, d):
        self.what = w = plan["what"]
        case = plan["case"]
        self.d = d
        self.expect = None
        if w == "pdf":
            x, y = world.synth(case)
            self.pdf = p = world.PDFDataSet("sim")
            p.robs, p.Gobs = list(x), list(y)
            p.drobs, p.dGobs = [0.0] * len(x), [0.1] * len(x)
            p.qmax, p.stype = 21.5, "N"
            p.metadata = {"temperature": 300.0}
            return
        self.ext = ext = world.make_extraction(case)
        with world.Silent():
            if w in ("stability", "aics"):
                self.ms = world.MultimodelSelection() if w == "aics" else world.PeakStability()
                self.ms.setppe(ext)
                self.ms.run(plan["errs"])
                self.ms.setcurrent(0)
                self.dr = self.ms.results[0][3]
            elif w in ("pwa", "trace") or case["how"] == "extract":
                world.do_extract(ext)
            elif case["how"] == "fit":
                world.do_fit(ext)
        if w == "trace":
            self.tracer = world.srmiselog.TracePeaks(filter=["True"], filebase=d.path("t"))
            self.trace = self.tracer.maketrace(ext.extracted)

    def file(self, name):
        if self.what == "trace":
            return "t_%d" % (0 if name == "a" else 1)
        return name + "." + self.what

    def save(self, name):
        f = self.d.path(self.file(name))
        w = self.what
        with world.Silent():
            if w == "srmise":
                self.ext.write(f)
            elif w == "pwa":
                self.ext.writepwa(f, "some\ncomments")
            elif w == "pdf":
                self.pdf.write(f)
            elif w == "stability":
                self.ms.save(f)
            elif w == "aics":
                self.ms.makeaics([0.2, 0.4], self.dr, f)
            elif w == "trace":
                self.trace["counter"] = 0 if name == "a" else 1
                self.tracer.write(self.trace)

    def snapshot(self):
        w = self.what
        if w == "pdf":
            return world.snap_pdf(self.pdf)
        if w == "trace":
            s = world.snap_trace(self.trace)
            s["counter"] = 0
            return [s, world.snap_ext(self.ext), self.tracer.counter, self.tracer.call, self.tracer.recursion]
        s = [world.snap_ext(self.ext)]
        if w in ("stability", "aics"):
            s.append(world.snap_results(self.ms))
            s.append(self.ms.current)
        return s

    def content(self, name):
        """Canonical content of a file; None if there is none or it is incomplete."""
        data = self.d.get(self.file(name))
        if data is None:
            return None
        if self.what == "aics":
            try:
                t = pickle.loads(data)
                return {repr(float(k)): [float(v) for v in t[k]] for k in t}
            except Exception:
                return {"broken": len(data)}
        if self.what == "stability":
            try:
                res, s = pickle.loads(data)
            except Exception:
                return {"broken": len(data)}
            names = world.Names()
            return {
                "ppe": world.body(s),
                "results": [[world._plain(r[0]), world.snap_parts(r[1], names), world._plain(r[2]), world._plain(r[3])] for r in res],
                "functions": names.sigs,
            }
        text = data.decode("utf8", "replace")
        if self.what == "trace":
            text = "\n".join(line for line in text.split("\n") if not line.startswith("counter="))
        return world.body(text) + "\n#%d" % len(text.split("\n"))


class Produce(object):
    """Make producing the content fail."""

    def __init__(self, how, sub):
        self.how, self.sub = how, sub
        self.possible = True

    def __enter__(self):
        how, sub = self.how, self.sub
        self.undo = []
        if how.startswith("user"):
            if sub.what in ("aics", "trace"):
                self.possible = False
                return self
            real = getpass.getuser

            def getuser():
                raise (KeyError if how == "user-key" else OSError)("simulated: no user name")

            getpass.getuser = getuser
            mod = world.pdfdataset_module
            old = getattr(mod, "getuser", None)
            if old is not None:
                mod.getuser = getuser
            self.undo.append(lambda: setattr(getpass, "getuser", real))
            if old is not None:
                self.undo.append(lambda: setattr(mod, "getuser", old))
            return self
        if sub.what == "srmise":
            pf = Fragile(0.5)
            old = sub.ext.pf
            sub.ext.pf = list(old) + [pf]
            self.undo.append(lambda: setattr(sub.ext, "pf", old))
        elif sub.what == "stability":
            old = sub.ms.results[-1][1]
            sub.ms.results[-1][1] = Unpicklable(old)
            self.undo.append(lambda: sub.ms.results[-1].__setitem__(1, old))
        elif sub.what == "trace":
            old = sub.trace["mc"].peak_funcs
            sub.trace["mc"].peak_funcs = list(old) + [Fragile(0.5)]
            self.undo.append(lambda: setattr(sub.trace["mc"], "peak_funcs", old))
        elif sub.what == "pdf":
            old = sub.pdf.qdamp
            sub.pdf.qdamp = "unknown"
            self.undo.append(lambda: setattr(sub.pdf, "qdamp", old))
        elif sub.what == "pwa":
            old = sub.ext.cres
            sub.ext.cres = "unknown"
            self.undo.append(lambda: setattr(sub.ext, "cres", old))
        else:
            self.possible = False
        return self

    def __exit__(self, *a):
        for u in self.undo:
            u()
        return False


def attempt(sub, name):
    """(exception or None); the exception is kept alive for the caller."""
    try:
        sub.save(name)
        return None
    except (Exception, KeyboardInterrupt) as e:
        return e


def execute(plan, ctx):
    d = disk.activate(disk.SimDisk(ctx, (), plan["bufsize"]))
    try:
        sub = Subject(plan, ctx, d)
    except (world.SrMiseError, ValueError) as e:
        raise SkipRun("nothing to save: %s" % type(e).__name__)
    # What a complete file contains, from an undisturbed save under another name.
    sub.save("ref" if sub.what != "trace" else "a")
    full = sub.content("ref" if sub.what != "trace" else "a")
    if sub.what == "trace":
        d.remove(sub.file("a"))
    ctx.check(full is not None, "nothing-saved")
    lines = None
    before = sub.snapshot()
    for i, o in enumerate(plan["ops"]):
        name = o["name"]
        world.clock.advance(3600)
        fname = sub.file(name)
        old = d.get(fname)
        d.arm(o["faults"])
        prod = inj = None
        mark = len(d.handles)
        if o.get("produce"):
            prod = Produce(o["produce"], sub)
            with prod:
                err = attempt(sub, name)
        elif "instant" in o:
            if lines is None:
                with instants.Injector() as cnt:
                    attempt(sub, "ref" if sub.what != "trace" else name)
                lines = cnt.count
                old = d.get(fname)
                d.arm(())
                mark = len(d.handles)
            exc = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}[o["exc"]]
            with instants.Injector(int(o["instant"] * lines), exc("simulated")) as inj:
                err = attempt(sub, name)
            if inj.fired:
                ctx.fault("instant-" + o["exc"])
        else:
            err = attempt(sub, name)
        if inj is not None:
            inj.exc = exc = None
        hard = d.hard_fired()
        opened_target = d.counts["open"] > 0 and not any(f[0] == "open" for f in hard)
        leaked = d.still_open(mark)
        lastclose = d.clean_close
        d.end_call()
        d.clear()
        kind = "produce" if prod else "instant" if inj else (hard[0][0] + "-" + hard[0][1] if hard else "none")
        ended = type(err).__name__ if err is not None else "returned"
        ctx.log(i, sub.what, kind, ended, len(d.get(fname) or b""))
        ctx.state(sub.what, kind, ended, old is not None)
        if err is None:
            ctx.check(not leaked, "returned-with-open-file", leaked)
            got = sub.content(name)
            ctx.check(world.diff(full, got) is None, "returned-but-incomplete", lambda: "%s after %s: %s" % (sub.what, kind, world.diff(full, got)))
            ctx.check(not (hard and not lastclose), "failure-not-reported", "%s: %s" % (sub.what, hard))
            if prod and prod.possible and o["produce"] == "function":
                ctx.check(False, "failure-not-reported", "content of %s cannot be produced" % sub.what)
        else:
            expected = bool(hard) or (prod is not None and prod.possible) or (inj is not None and inj.fired)
            ctx.check(expected, "save-raised-without-reason", lambda: "%s: %r" % (sub.what, err))
            if prod:
                ctx.fault("produce-" + o["produce"])
            if prod or (hard and not opened_target):
                now = d.get(fname)
                ctx.check(
                    now == old,
                    "old-file-damaged",
                    lambda: "%s: %s bytes before, %s after %s" % (sub.what, None if old is None else len(old), None if now is None else len(now), kind),
                )
                ctx.probe("old-file-kept" if old is not None else "no-file-made")
        err = None
        gc.collect()
        # (Between open() and "with" no code can protect a file from an interrupt.)
        if inj is not None:
            d.late = []
        ctx.check(not d.late, "written-after-the-call", lambda: "%s: %s" % (sub.what, d.late))
        df = world.diff(before, sub.snapshot())
        ctx.check(df is None, "object-changed", lambda: "%s after %s: %s" % (sub.what, kind, df))
        if o.get("retry"):
            e2 = attempt(sub, name)
            ctx.check(e2 is None, "retry-fails", lambda: "%s after %s: %r" % (sub.what, kind, e2))
            got = sub.content(name)
            ctx.check(world.diff(full, got) is None, "retry-incomplete", lambda: "%s after %s: %s" % (sub.what, kind, world.diff(full, got)))
            ctx.count("retries")
            df2 = world.diff(before, sub.snapshot())
            ctx.check(df2 is None, "object-changed-by-retry", df2)


def shrink(plan):
    for k in ("initial", "rng", "dy", "baseline"):
        if plan["case"].get(k):
            q = json.loads(json.dumps(plan))
            q["case"][k] = None
            yield q
    for i, o in enumerate(plan["ops"]):
        if o.get("retry"):
            q = json.loads(json.dumps(plan))
            q["ops"][i]["retry"] = False
            yield q
