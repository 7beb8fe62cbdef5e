"""C01: a saved extraction loads back as what was saved."""
import json
import re

from sim import disk, ops, world
from sim.core import SkipRun

QUICK_RUNS = 3500
THOROUGH_RUNS = 400000
LIMIT = 60
LEVEL = "exploration"
RULE = (
    "a run is a history of up to 14 operations on two or three extraction objects (set variables, extract, fit, estimate, "
    "add peaks, save, load into new or used objects, resave) with split and interrupted transfers, clock jumps and user "
    "changes; non-trivial: at least one save was loaded and compared; distinct by digest of the event log"
)
STATE_MEASURE = "(class, operation kinds done before the save, variables unset, result type, loader new/used)"
REAL = ["PeakExtraction/PDFPeakExtraction save and load", "extraction and fitting", "scipy leastsq", "Python buffered and text I/O"]
STUB = ["raw file layer (SimDisk: chunk sizes, short and interrupted transfers)", "clock", "user name"]
ASSUMPTIONS = [
    "Arbitrary baselines are excluded: they cannot be written by design",
    "extraction variables have the documented types",
]
SHRINK_LISTS = ("ops", "faults", "cases")


def generate(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    cls = rng.choice(["PE", "PDF"])
    cases = []
    for i in range(n):
        c = world.gen_case(rng, rng.choice(["tiny", "tiny", "small"]), cls=cls if rng.random() < 0.8 else None)
        c["round"] = rng.random() < 0.6
        c["how"] = rng.choice(["set", "set", "set", "set", "data", "attr", "empty"])
        if c["how"] == "attr":
            c["attr"] = rng.randrange(2)
        if rng.random() < 0.15:
            c["pf"].append(["TerminationRipples", 0, 12.0])
        if len(c["pf"]) > 1 and rng.random() < 0.5:
            c["pforder"] = ops.gen_order(rng, len(c["pf"]))
        cases.append(c)
    olist = []
    for _ in range(rng.randint(3, 14)):
        k = rng.choice(["extract", "fit", "set", "set", "estimate", "addpeak", "save", "save", "save", "load", "load", "clock", "user", "clearcalc", "cleardata", "twin", "model", "summary", "summary"])
        o = {"op": k, "obj": rng.randrange(n)}
        case = cases[o["obj"]]
        if k in ("set", "estimate", "addpeak"):
            o.update(ops.gen_op(rng, case, (k,)))
        elif k == "save":
            o["name"] = rng.choice(["a.srmise", "b.srmise"])
        elif k == "load":
            o["name"] = rng.choice(["a.srmise", "b.srmise"])
            o["new"] = rng.random() < 0.3
            o["str"] = rng.random() < 0.2
        elif k == "clock":
            o["to"] = r = rng.choice([0.0, 951782400.0, 4e9, 1.7e9])
        elif k == "user":
            o["name"] = rng.choice(["root", "jos\u00e9", "x y", "sim", "##### Results"])
        elif k == "summary":
            o["comment"] = rng.choice(["", "n/a", "two\nlines"])
        elif k == "model":
            o["part"] = rng.choice([None, round(rng.random(), 2)])
        elif k == "twin":
            o["do"] = rng.choice(["extract", "fit"])
        olist.append(o)
    # Most histories end by saving and loading something.
    olist.append({"op": "save", "obj": 0, "name": "a.srmise"})
    olist.append({"op": "load", "obj": rng.randrange(n), "name": "a.srmise", "new": rng.random() < 0.5, "str": False})
    faults = []
    for _ in range(rng.choice([0, 0, 1, 3])):
        faults.append(disk.gen_fault(rng, rng.choice(["write", "read"]), ["short", "short", "EINTR"], 6))
    return {"cases": cases, "ops": olist, "faults": faults, "bufsize": rng.choice([0, 0, 64, 257, 1000, 4096])}


def make(case):
    how = case.get("how", "set")
    if how == "empty":
        return world.PDFPeakExtraction() if case["cls"] == "PDF" else world.PeakExtraction()
    if how == "set":
        return world.make_extraction(case)
    ext = world.make_extraction(case, setvars=False)
    if how == "attr":
        for k, v in list(world.case_vars(case).items())[case.get("attr", 0)::2]:
            if k == "effective_dy":
                continue  # only setvars makes an array of a number
            setattr(ext, k, v)
    return ext


def execute(plan, ctx):
    if not plan["cases"]:
        raise SkipRun("no objects")
    objs = [make(c) for c in plan["cases"]]
    hist = [[c.get("how", "set")] for c in plan["cases"]]
    d = disk.activate(disk.SimDisk(ctx, plan["faults"], plan["bufsize"]))
    saved = {}
    for i, o in enumerate(plan["ops"]):
        k = o["op"]
        j = o.get("obj", 0) % len(objs)
        ext = objs[j]
        if k == "save":
            before = world.snap_ext(ext)
            ext.write(d.path(o["name"]))
            after = world.snap_ext(ext)
            ctx.check(world.diff(before, after) is None, "save-changes-object", lambda: world.diff(before, after))
            text = d.get(o["name"]).decode("utf8")
            saved[o["name"]] = (before, world.body(text), type(ext), text)
            ctx.log(i, k, o["name"], world.body(text))
            ctx.count("saves")
        elif k == "load":
            if o["name"] not in saved:
                continue
            snap, text, cls, full = saved[o["name"]]
            used = not o.get("new") and type(ext) is cls
            target = ext if used else cls()
            if o.get("str"):
                target.readstr(full)
            else:
                r = target.read(d.path(o["name"]))
                ctx.check(r is target, "read-returns-self")
            got = world.snap_ext(target)
            df = world.diff_saved(snap, got)
            ctx.check(df is None, "roundtrip-differs", df)
            again = world.body(target.writestr())
            ctx.check(again == text, "resave-differs", lambda: first_diff(text, again))
            ctx.check(world.diff(world.snap_ext(target), got) is None, "resave-changes-object")
            ctx.nontrivial = True
            ctx.log(i, k, o["name"], used)
            ctx.count("loads")
            unset = [v for v in ("cres", "pf", "baseline", "rng", "error_method", "initial_peaks", "x") if getattr(target, v) is None]
            ctx.state(cls.__name__, tuple(sorted(set(hist[j]))), tuple(unset), target.extraction_type, used)
            if snap["extracted"]:
                ctx.probe("loaded-model")
            if unset:
                ctx.probe("loaded-unset")
            if used and len(hist[j]) > 1:
                ctx.probe("loaded-into-used")
            if not used:
                objs[j] = target
            hist[j].append("load")
        elif k == "model":
            # A model is written by itself, too, with or without what it shares with others.
            mc = ext.extracted
            if mc is None:
                continue
            if o["part"] is not None and len(mc.r_cluster) > 6:
                mc = world.ModelCluster(mc)
                n = len(mc.r_data)
                lo = int(o["part"] * n / 2)
                mc.change_slice(slice(lo, n - lo // 2))
            before = world.snap_mc(mc)
            text = mc.writestr()
            ctx.check(world.diff(before, world.snap_mc(mc)) is None, "save-changes-object")
            back = world.ModelCluster.factory(text)
            got = world.snap_mc(back)
            df = world.diff_saved(before, got)
            ctx.check(df is None, "roundtrip-differs", lambda: "model by itself: %s" % df)
            again = back.writestr()
            ctx.check(again == text, "resave-differs", lambda: first_diff(text, again))
            ctx.probe("model-by-itself")
            ctx.log(i, k, text)
        elif k == "summary":
            if type(ext) is not world.PDFPeakExtraction or ext.extracted is None:
                continue
            try:
                before = world.snap_ext(ext)
                ext.writepwa(d.path("s.pwa"), o["comment"])
                text = d.get("s.pwa").decode("utf8")
            except Exception as e:
                # A summary needs a resolution, uncertainties and a range.
                ctx.check(None in (ext.cres, ext.rng, ext.effective_dy), "summary-not-written", lambda: repr(e))
                continue
            ctx.check(world.diff(before, world.snap_ext(ext)) is None, "save-changes-object")
            df = summary_differs(ext, text, o["comment"])
            ctx.check(df is None, "wrong-summary", lambda: df)
            ctx.probe("summary")
            ctx.log(i, k, world.body(text))
        elif k == "clock":
            world.clock.jump(o["to"])
        elif k == "user":
            import os

            os.environ["LOGNAME"] = o["name"]
        elif k == "cleardata":
            if i % 3 == 0:
                ext.clear()
                hist[j].append("clear")
        elif k == "twin":
            # A loaded object goes on like the one saved, if the text held every digit.
            if ext.x is None:
                continue
            twin = type(ext)()
            twin.readstr(ext.writestr())
            a, b = world.snap_ext(ext), world.snap_ext(twin)
            if world.diff(a, b) is not None:
                continue
            op = {"op": o["do"]}
            ra, rb = attempt(ext, op), attempt(twin, op)
            df = world.diff(ra, rb)
            ctx.check(df is None, "loaded-object-continues-differently", df)
            ctx.probe("twin")
            hist[j].append("twin")
            ctx.log(i, k, ra)
        elif ext.x is None:
            continue  # there is nothing to work on
        else:
            try:
                ops.apply(ext, o)
                ctx.log(i, k, world.snap_ext(ext))
            except Exception as e:
                ctx.log(i, k, type(e).__name__)
                ctx.count("op-" + k + "-refused")
            hist[j].append(k)


def summary_differs(ext, text, comment):
    """What a summary says otherwise than the object, or None.

    Only the values are compared, by the labels and sections they have."""
    mc = ext.extracted
    sections, name = {}, None
    for line in text.split("\n"):
        if line.startswith("##"):
            name = line.strip("# ").lower()
            sections[name] = []
        elif name is not None and line:
            sections[name].append(line)
    got = {}
    for sec in ("pdf metadata", "peak extraction metadata", "model quality"):
        for line in sections.get(sec, ["(no section %s)" % sec]):
            m = re.match(r"#?\s*([^=:]+)[=:]\s*(.*)$", line)
            if m:
                got[m.group(1).strip().lower()] = m.group(2)
    bl = ext.baseline
    want = {
        "filename": ext.filename, "nyquist": ext.nyquist, "qmax": ext.qmax, "qmax_reportedbypdf": ext.qmax_reportedbypdf,
        "qmax_fromdata": ext.qmax_fromdata, "scale": ext.scale, "supersample": ext.supersample,
        "range": list(ext.rng), "cres": ext.cres, "effective_dy": sum(ext.effective_dy) / len(ext.effective_dy),
        "quality reported by modelevaluator": mc.quality().stat,
        "free parameters in extracted peaks": sum(bool(f) for p in mc.model for f in p.free),
        "free parameters in baseline": 0 if bl is None else sum(bool(f) for f in bl.free) if hasattr(bl, "free") else bl.npars,
        "length of data in final fit": len(mc.r_data),
        "modelevaluator": None if ext.error_method is None else ext.error_method.__name__,
    }
    for k, v in want.items():
        if k not in got:
            return "%s missing" % k
        if isinstance(v, str):
            ok = got[k] == v
        else:
            ok = same_value(got[k].replace("(mean)", ""), v)
        if not ok:
            return "%s: %s, not %s" % (k, got[k], v)
    if [c.strip("# ") for c in sections.get("user comments", [])] != comment.split("\n") and comment:
        return "comments %s, not %r" % (sections.get("user comments"), comment)

    def functions(sec):
        rows = [x.split() for x in sections.get(sec, []) if not x.startswith("#")]
        return {r[0]: (r[1], r[2][6:-1] if len(r) > 2 else None) for r in rows}

    def function_differs(table, idx, f):
        while True:
            if idx not in table or table[idx][0] != f.getmodule():
                return "%s of %s is not %s" % (idx, table, f.getmodule())
            idx = table[idx][1]
            if (idx is None) != (f.base is None):
                return "base %s of %s, not %s" % (idx, table, f.base)
            if idx is None:
                return None
            f = f.base

    def rows(sec):
        return [x for x in sections.get(sec, []) if not x.startswith("#")]

    pf, bf = functions("peak functions"), functions("baseline functions")
    b = rows("baseline")
    if len(b) != 1:
        return "baseline %s" % b
    if mc.baseline is None:
        if b != ["None"]:
            return "baseline %s, but there is none" % b
    else:
        pars, idx = b[0].split(" # ")
        df = function_differs(bf, idx, mc.baseline.owner())
        if df:
            return "baseline function " + df
        pars = [] if pars == "(no parameters)" else pars.split()
        if len(pars) != len(mc.baseline.pars) or not all(same_value(x, y) for x, y in zip(pars, mc.baseline.pars)):
            return "baseline %s, not %s" % (pars, mc.baseline.pars)
    peaks = rows("extracted peaks")
    if len(peaks) != len(mc.model):
        return "%d peaks, not %d" % (len(peaks), len(mc.model))
    for line, p in zip(peaks, mc.model):
        vals, idx = line.split(" # ")
        df = function_differs(pf, idx, p.owner())
        if df:
            return "peak function " + df
        # Both kinds of peaks order their parameters as position, width, area.
        pwa = p.owner().transform_parameters(p.pars.copy(), "internal", "pwa")
        if len(vals.split()) != 3 or not all(same_value(x, y) for x, y in zip(vals.split(), pwa)):
            return "peak %s, not %s" % (vals, pwa)
    return None


def same_value(text, v):
    try:
        got = eval(text, {"nan": float("nan"), "inf": float("inf")})
    except Exception:
        return False
    return world.diff(world._plain(v), world._plain(got), rel=6e-6) is None


def attempt(ext, op):
    try:
        ops.apply(ext, op)
    except Exception as e:
        return {"exception": type(e).__name__}
    return world.result(ext)


def first_diff(a, b):
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return "%r -> %r" % (x[:300], y[:300])
    return "lengths differ"


def shrink(plan):
    if plan.get("bufsize"):
        q = json.loads(json.dumps(plan))
        q["bufsize"] = 0
        yield q
    for i, c in enumerate(plan["cases"]):
        for k in ("initial", "baseline", "rng", "noise", "dy"):
            if c.get(k):
                q = json.loads(json.dumps(plan))
                q["cases"][i][k] = None if k != "noise" else 0.0
                yield q
