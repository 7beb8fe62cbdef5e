"""C03: damaged or half-saved extraction files are reported, never misread."""
import json
import random

import numpy as np

from sim import disk, world
from sim.core import SimCrash, SkipRun

QUICK_RUNS = 1600
THOROUGH_RUNS = 200000
LIMIT = 90
LEVEL = "exploration"
RULE = (
    "a run saves one or two extractions (or traces), then loads 10-60 damaged versions of the file: cut at arbitrary bytes, "
    "left behind by a crash in the middle of a save, with flipped bits, lost, repeated or swapped lines, lost or zeroed blocks, "
    "changed words, or with read errors, into new and used objects, each failed load followed by loading an intact file; "
    "non-trivial: at least one damaged file was loaded; distinct by digest of the event log"
)
STATE_MEASURE = "(kind of file, damage, section of the file hit, how the load ended)"
REAL = ["PeakExtraction/PDFPeakExtraction/TracePeaks save and load", "Python text I/O and decoding"]
STUB = ["raw file layer and the state a crash leaves (SimDisk, after_crash)"]
ASSUMPTIONS = [
    "no data is synchronised to disk, so after a crash any block written may be missing, stale, zeroed or torn",
    "damage is accidental: the loader evaluates parts of the file as Python and is not meant for hostile files",
]
SHRINK_LISTS = ("ops",)


def generate(rng, tier):
    kind = rng.choice(["ext", "ext", "ext", "trace"])
    case = world.gen_case(rng, "tiny")
    case["n"] = rng.randint(8, 24)
    case["rng"] = None
    case["how"] = rng.choice(["extract", "extract", "fit", "set", "data"]) if kind == "ext" else "extract"
    other = world.gen_case(rng, "tiny", cls=case["cls"])
    plan = {"kind": kind, "case": case, "other": other, "ops": [], "bufsize": rng.choice([16, 64, 200, 512, 0])}
    for _ in range(rng.randint(10, 40)):
        t = rng.random()
        o = {"used": rng.random() < 0.5, "str": rng.random() < 0.3, "again": rng.random() < 0.3}
        if t < 0.42:
            o.update(how="cut", at=rng.random(), end=rng.random() < 0.25, line=rng.random() < 0.3)
        elif t < 0.60:
            o.update(how="crash", nth=rng.randint(0, 12), frac=rng.random(), seed=rng.randrange(10**6), block=rng.choice([32, 64, 128, 512]), old=rng.random() < 0.6)
        elif t < 0.93:
            o.update(how="damage", seed=rng.randrange(10**6))
        else:
            o.update(how="read", fault=disk.gen_fault(rng, rng.choice(["read", "read", "open", "close"]), ["EIO", "EIO", "EACCES"], 2), str=False)
        plan["ops"].append(o)
    return plan


def section(text, pos):
    """Which part of the file a position lies in."""
    best = "header"
    for mark in ("BaselineFunctions", "PeakFunctions", "BaselineObject", "InitialPeaks", "SrMiseMetadata", "# Metadata", "start data", "Results", "ModelCluster", "ModelPeaks", "start cluster"):
        i = text.find(mark)
        if 0 <= i <= pos:
            best = mark
    return best


def lengths(ext):
    out = {}
    for k in ("x", "y", "dx", "dy", "effective_dy"):
        v = getattr(ext, k)
        if v is not None:
            out[k] = len(np.atleast_1d(v))
    return out


def mc_lengths(mc):
    return {k: len(getattr(mc, k)) for k in ("r_data", "y_data", "y_error") if getattr(mc, k) is not None}


def consistent(ext):
    a = lengths(ext)
    if len(set(a.values())) > 1:
        return a
    if ext.extracted is not None:
        b = mc_lengths(ext.extracted)
        if len(set(b.values())) > 1:
            return b
    return None


class Base(object):
    def __init__(self, case, plan, ctx, d, name):
        self.kind = plan["kind"]
        self.ext = ext = world.make_extraction(case, setvars=case.get("how", "set") != "data")
        self.cls = type(ext)
        if case.get("how") == "extract":
            world.do_extract(ext)
        elif case.get("how") == "fit":
            world.do_fit(ext)
        if self.kind == "trace":
            self.tracer = world.srmiselog.TracePeaks(filter=["True"], filebase=d.path("t"))
            if ext.extracted is None:
                world.do_extract(ext)
            self.trace = self.tracer.maketrace(ext.extracted)
            self.trace["counter"] = 0
            self.text = self.tracer.writestr(self.trace)
            self.snap = self.snapshot(self.tracer.readstr(self.text))
        else:
            self.text = ext.writestr()
            new = self.cls()
            new.readstr(self.text)
            self.snap = world.snap_ext(new)

    def snapshot(self, loaded):
        return world.snap_trace(loaded) if self.kind == "trace" else world.snap_ext(loaded)

    def write(self, d):
        if self.kind == "trace":
            self.tracer.write(self.trace)
            return "t_0"
        self.ext.write(d.path("f.srmise"))
        return "f.srmise"


def last_dropped(snap):
    """Snapshot without the last number of the file."""
    s = json.loads(json.dumps(snap))
    mc = s["mc"] if "mc" in s else s["extracted"]
    if mc is not None:
        for k in ("dy",):
            if mc[k]:
                mc[k][-1] = None
    return s


def execute(plan, ctx):
    d = disk.activate(disk.SimDisk(ctx, (), plan["bufsize"]))
    try:
        base = Base(plan["case"], plan, ctx, d, "a")
        other = Base(plan["other"], plan, ctx, d, "b")
    except (world.SrMiseError, ValueError) as e:
        raise SkipRun(type(e).__name__)
    data = base.text.encode("utf8")
    fname = "t_0" if base.kind == "trace" else "f.srmise"
    for i, o in enumerate(plan["ops"]):
        how = o["how"]
        cut = None
        pos = 0
        if how == "cut":
            n = len(data)
            if o.get("end"):
                cut = max(0, n - 1 - int(o["at"] * 40))
            else:
                cut = int(o["at"] * n)
            if o.get("line"):
                cut = data.rfind(b"\n", 0, cut + 1) + 1
            content, pos, label = data[:cut], cut, "cut"
        elif how == "crash":
            old = other.text.encode("utf8") if o["old"] else None
            if old is not None:
                d.put(fname, old)
            else:
                d.remove(fname)
            d.arm([{"op": "write", "nth": o["nth"], "kind": "crash", "frac": o["frac"]}])
            try:
                base.write(d)
            except SimCrash:
                pass
            d.dead = False
            d.release()
            d.clear()
            content = disk.after_crash(random.Random(o["seed"]), old, d.get(fname) or b"", o["block"])
            label = "crash"
            ctx.fault("crash-during-save")
        elif how == "damage":
            label, content = disk.damage(random.Random(o["seed"]), data)
            pos = next((k for k, (a, b) in enumerate(zip(data, content)) if a != b), len(content))
        else:
            content, label = data, "read-" + o["fault"]["op"]
        if how != "read":
            ctx.fault("damage-" + label)
        check_load(ctx, d, base, other, o, fname, content, cut, label, section(base.text, pos), i)


def check_load(ctx, d, base, other, o, fname, content, cut, label, sect, i):
    trace = base.kind == "trace"
    target = None
    if not trace:
        target = base.cls()
        if o["used"]:
            target.readstr(other.text)
    loaded_before = world.snap_ext(target) if target is not None else None
    d.put(fname, content)
    d.arm([o["fault"]] if o["how"] == "read" else ())
    unread = False
    text = None
    try:
        text = content.decode("utf8")
    except UnicodeDecodeError:
        unread = True
    tracer = world.srmiselog.TracePeaks()
    err = loaded = None
    asstr = o["str"] and not unread
    try:
        if trace:
            loaded = tracer.readstr(text) if asstr else tracer.read(d.path(fname))
        else:
            if asstr:
                target.readstr(text)
            else:
                target.read(d.path(fname))
            loaded = target
    except Exception as e:
        err = e
    hard = d.hard_fired()
    d.clear()
    ended = "loaded" if err is None else type(err).__name__
    ctx.log(i, label, sect, ended, len(content))
    ctx.state(base.kind, label, sect, ended)
    if err is not None:
        if hard:
            ok = isinstance(err, OSError) or isinstance(err, world.SrMiseFileError)
            unread = True
        elif asstr:
            ok = isinstance(err, world.SrMiseDataFormatError)
        else:
            ok = isinstance(err, world.SrMiseFileError)
        ctx.check(ok, "undocumented-error", lambda: "%s in %s: %s: %s" % (label, sect, type(err).__name__, err))
        err = None
        if not trace:
            now = world.snap_ext(target)
            empty = world.diff(world.snap_ext(base.cls()), now)
            if unread:
                kept = world.diff(loaded_before, now)
                ctx.check(empty is None or kept is None, "half-loaded-object", empty)
            else:
                ctx.check(empty is None, "failed-load-leaves-data", lambda: "%s in %s: %s" % (label, sect, empty))
            if o["again"]:
                target.readstr(base.text)
                df = world.diff(base.snap, world.snap_ext(target))
                ctx.check(df is None, "load-after-failed-load-differs", df)
                ctx.probe("load-after-failure")
    else:
        ctx.check(not hard, "read-error-swallowed", hard)
        if trace:
            lens = mc_lengths(loaded["mc"])
            bad = lens if len(set(lens.values())) > 1 else None
        else:
            bad = consistent(loaded)
        ctx.check(bad is None, "arrays-of-different-lengths", lambda: "%s in %s: %s" % (label, sect, bad))
        if cut is not None:
            whole = base.text.rstrip()
            tail = base.text[: len(whole)]
            start = max(tail.rfind(" "), tail.rfind("\n")) + 1
            n = len(content)
            ctx.check(
                n > start and whole[start:] != "None" or n >= len(whole),
                "cut-file-accepted",
                lambda: "only %d of %d bytes, cut in %s" % (n, len(base.text), sect),
            )
            got = base.snapshot(loaded)
            want = base.snap
            if n < len(whole):
                got, want = last_dropped(got), last_dropped(want)
                ctx.probe("last-number-cut")
            df = world.diff(want, got)
            ctx.check(df is None, "cut-file-misread", lambda: "cut at %d of %d: %s" % (n, len(base.text), df))
        elif content == base.text.encode("utf8"):
            df = world.diff(base.snap, base.snapshot(loaded))
            ctx.check(df is None, "intact-file-misread", df)


def shrink(plan):
    for k in ("initial", "dy", "baseline"):
        if plan["case"].get(k):
            q = json.loads(json.dumps(plan))
            q["case"][k] = None
            yield q
