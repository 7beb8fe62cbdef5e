"""C04: PDF data files survive writing, reading, damage and read faults."""
import gc
import json
import os
import random

import numpy as np

from sim.world import r3
from sim import disk, world

QUICK_RUNS = 4000
THOROUGH_RUNS = 500000
LIMIT = 60
LEVEL = "exploration"
RULE = (
    "a run is a history of 6-30 operations (write, read into new or used data sets, copy, load into an extraction, cut, "
    "damage, interrupted writes, read faults, baseline sequence files) on one or two PDF data sets; non-trivial: at least one "
    "file was read back or damaged; distinct by digest of the event log"
)
STATE_MEASURE = "(operation, damage, scattering type, uncertainties present, how it ended)"
REAL = ["PDFDataSet, PDFPeakExtraction.loadpdf, FromSequence.readxy", "Python buffered and text I/O"]
STUB = ["raw file layer (SimDisk)", "clock", "user name"]
ASSUMPTIONS = ["metadata are numbers with word-like names; uncertainties of a column are all positive or all zero"]


# How programs write the parameters of a PDF: text, attribute.
FOREIGN = [["qmax=%g  correction applied", "qmax"], ["Qmax = %g", "qmax"], ["qsig=%g", "qdamp"], ["qdamp = %g", "qdamp"], ["qalp=%g", "qbroad"],
           ["Qbroad=%g", "qbroad"], ["spdiameter=%g", "spdiameter"], ["dscale = %g", "dscale"], ["DSCALE=%g", "dscale"],
           ["temp=%g", "temperature"], ["temperature = %g", "temperature"], ["T=%g", "temperature"], ["x=%g", "doping"], ["doping = %g", "doping"],
           ["produced by PDFgetX2 %g", "X"], ["neutron data %g", "N"], ["stype=N %g", "stype=N"], ["stype = X %g", "stype=X"], ["comment %g", None]]


def num(rng, kind):
    if kind == "r":
        return float("%.6g" % rng.uniform(0.01, 40))
    t = rng.random()
    if t < 0.5:
        return rng.uniform(-20, 20)
    if t < 0.7:
        return float("%.3g" % rng.gauss(0, 1))
    if t < 0.8:
        return rng.gauss(0, 1) * 10.0 ** rng.randint(-12, 12)
    if t < 0.9:
        return float(rng.randint(-5, 5))
    return rng.gauss(0, 100)


def gen_data(rng):
    n = rng.choice([1, 2, 3, 5, 12, 40])
    r = sorted({num(rng, "r") for _ in range(n)})
    if rng.random() < 0.3:
        r = [float("%.6g" % (0.5 + 0.01 * i)) for i in range(n)]
    n = len(r)
    meta = {}
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        meta[rng.choice(["temperature", "doping", "pressure", "a1", "scan_no", "Rw", "qmin", "E", "delta2", "x", "T", "temp"])] = rng.choice(
            [300.0, 0.25, -1.5, 1e-07, 12345678.9, 1.5e22, 3.0, float(rng.gauss(0, 1))]
        )
    return {
        "r": r,
        "G": [num(rng, "G") for _ in range(n)],
        "dr": None if rng.random() < 0.6 else [abs(num(rng, "G")) + 1e-3 for _ in range(n)],
        "dG": None if rng.random() < 0.4 else [abs(num(rng, "G")) + 1e-3 for _ in range(n)],
        "stype": rng.choice(["X", "N"]),
        "qmax": rng.choice([0.0, 0.0, 25.0, 19.876, 21.5, 0.5, 100.0]),
        "qdamp": rng.choice([0.001, 0.05, 0.0123456789, 0.0, 1e-5]),
        "qbroad": rng.choice([0.0, 0.1, 0.0261803]),
        "dscale": rng.choice([1.0, 0.5, 123.456]),
        "spdiameter": rng.choice([None, None, 25.5, 3.0]),
        "metadata": meta,
    }


def generate(rng, tier):
    plan = {"data": [gen_data(rng) for _ in range(rng.choice([1, 2, 2]))], "ops": [], "bufsize": rng.choice([0, 0, 16, 100, 333])}
    for _ in range(rng.randint(6, 30)):
        k = rng.choice(["write", "write", "read", "read", "read", "copy", "loadpdf", "cut", "cut", "cut", "damage", "damage", "crash", "fault", "seq", "clock", "user", "setvar", "bare"])
        o = {"op": k, "obj": rng.randrange(3), "name": rng.choice(["a.gr", "b.gr"])}
        if k in ("read", "cut", "damage", "loadpdf"):
            o.update(str=rng.random() < 0.25, used=rng.random() < 0.5)
        if k == "cut":
            o.update(at=rng.random(), end=rng.random() < 0.5)
        elif k in ("damage",):
            o["seed"] = rng.randrange(10**6)
        elif k == "crash":
            o.update(nth=rng.choice([0, 0, 1, 3]), frac=rng.random(), seed=rng.randrange(10**6), block=rng.choice([32, 64, 512]))
        elif k == "fault":
            o["what"] = rng.choice(["read", "loadpdf", "seq"])
            o["fault"] = disk.gen_fault(rng, rng.choice(["read", "read", "open", "close"]), ["EIO", "EIO", "EACCES", "short", "EINTR"], 2)
            o["content"] = rng.choice(["good", "good", "cut", "binary", "text"])
        elif k == "seq":
            o.update(at=rng.random(), damage=rng.random() < 0.6, seed=rng.randrange(10**6))
        elif k == "clock":
            o["to"] = rng.choice([0.0, 951782400.0, 4e9])
        elif k == "user":
            o["user"] = rng.choice(["root", "jos\u00e9", "neutron", "xray", "PDFgetN", "a b"])
        elif k == "setvar":
            o["var"] = rng.choice(["qdamp", "qbroad", "dscale"])
            o["value"] = rng.choice([0.25, 1e-3, 7.0])
        elif k == "bare":
            o["cols"] = rng.choice([2, 3, 4])
            o["header"] = [rng.choice(FOREIGN) + [r3(rng.choice([0.0, 0.25, 25.0, 1e-3, 300.0, 1.5e-5, 12.34]))] for _ in range(rng.choice([0, 1, 2, 4, 7]))]
            o["marker"] = rng.choice([None, "#### start data", "##### start data\n#O0 rg_int\n#S 1 - PDF\n#L r(A)  G(r)  d_r  d_Gr"])
            if rng.random() < 0.6:
                o["blemish"] = [rng.choice([2, 3]), rng.random(), rng.choice(["0", "-1.5", "nan", "-Inf", "inf", "0.0", "missing"])]
        plan["ops"].append(o)
    return plan


def make(spec):
    d = world.PDFDataSet("sim")
    d.robs, d.Gobs = list(spec["r"]), list(spec["G"])
    n = len(d.robs)
    d.drobs = [0.0] * n if spec["dr"] is None else list(spec["dr"])
    d.dGobs = [0.0] * n if spec["dG"] is None else list(spec["dG"])
    for k in ("stype", "qmax", "qdamp", "qbroad", "dscale", "spdiameter"):
        setattr(d, k, spec[k])
    d.metadata = dict(spec["metadata"])
    d.rmin, d.rmax = d.robs[0], d.robs[-1]
    return d


COLS = ("robs", "Gobs", "drobs", "dGobs")
SIX = COLS + ("qdamp", "qbroad", "dscale", "spdiameter", "rmin", "rmax")


def compare(want, got):
    """Difference between a snapshot written and a data set read, or None."""
    for k in SIX:
        d = world.diff(want[k], world._plain(getattr(got, k)), rel=6e-6, path=k)
        if d:
            return d
    if abs(want["qmax"] - got.qmax) > 0.00501:
        return "qmax: %r != %r" % (want["qmax"], got.qmax)
    if want["stype"] != got.stype:
        return "stype: %r != %r" % (want["stype"], got.stype)
    return world.diff(want["metadata"], world._plain(got.metadata), rel=6e-6, path="metadata")


def lengths(d):
    return [len(getattr(d, k)) for k in COLS]


def check_header(ctx, got, want, text):
    """Parameters given in a header are those read; others have their defaults."""
    info = lambda: text[:200]
    new = world.PDFDataSet("new")
    for k in ("qmax", "qdamp", "qbroad", "spdiameter", "dscale"):
        ctx.check(getattr(got, k) == want.get(k, getattr(new, k)), "wrong-parameter", lambda: "%s %s of %s" % (k, getattr(got, k), info()))
    st = "X"
    for k in ("N", "X", "stype=X", "stype=N"):
        # A line saying so goes before the program's name.
        if k in want:
            st = k[-1]
    if "stype=X" in want and "stype=N" in want or "stype=X" not in want and "stype=N" not in want and not ("N" in want or "X" in want):
        st = got.stype
    ctx.check(got.stype == st, "wrong-parameter", lambda: "stype %s of %s" % (got.stype, info()))
    meta = {k: want[k] for k in ("temperature", "doping") if k in want}
    ctx.check(got.metadata == meta, "wrong-parameter", lambda: "metadata %s of %s" % (got.metadata, info()))


def execute(plan, ctx):
    d = disk.activate(disk.SimDisk(ctx, (), plan["bufsize"]))
    objs = [make(s) for s in plan["data"]] + [world.PDFDataSet("empty")]
    files = {}

    def expect_closed(what, i):
        ctx.check(not d.still_open(), "file-left-open", lambda: "%s leaves %s open" % (what, d.still_open()))

    for i, o in enumerate(plan["ops"]):
        k, name = o["op"], o["name"]
        j = o["obj"] % len(objs)
        obj = objs[j]
        path = d.path(name)
        if k == "write":
            if not len(obj.robs):
                continue
            before = world.snap_pdf(obj)
            obj.write(path)
            expect_closed("write", i)
            ctx.check(world.diff(before, world.snap_pdf(obj)) is None, "write-changes-data")
            files[name] = (before, d.get(name))
            ctx.log(i, k, name, world.body(d.get(name).decode("utf8")))
        elif k in ("read", "loadpdf"):
            if name not in files:
                continue
            snap, data = files[name]
            d.put(name, data)
            if k == "loadpdf":
                check_loadpdf(ctx, d, path, obj if o["str"] and len(obj.robs) > 3 else None, i)
                expect_closed("loadpdf", i)
                continue
            target = obj if o["used"] else world.PDFDataSet("new")
            r = target.readStr(data.decode("utf8")) if o["str"] else target.read(path)
            ctx.check(r is target, "read-returns-self")
            expect_closed("read", i)
            df = compare(snap, target)
            ctx.check(df is None, "roundtrip-differs", df)
            if not o["str"]:
                ctx.check(target.filename == os.path.abspath(path), "filename-not-set", target.filename)
            # Once read, nothing more changes.
            one = world.snap_pdf(target)
            two = world.PDFDataSet("new").readStr(target.writeStr())
            s2 = world.snap_pdf(two)
            for s in (one, s2):
                s.pop("filename", None)
                s.pop("name", None)
            df = world.diff(one, s2)
            ctx.check(df is None, "second-roundtrip-differs", df)
            ctx.nontrivial = True
            ctx.state(k, o["used"], target.stype, any(target.drobs), any(target.dGobs), len(target.metadata) > 0)
            ctx.log(i, k, name, one)
            objs[j] = target
        elif k == "copy":
            a = world.snap_pdf(obj)
            c = obj.copy() if o["name"] == "a.gr" else obj.copy(world.PDFDataSet("sim") if len(objs) < 2 else objs[(j + 1) % len(objs)].copy())
            b = world.snap_pdf(c)
            b["name"] = a["name"]
            df = world.diff(a, b)
            ctx.check(df is None, "copy-differs", df)
            objs[j] = c
        elif k == "setvar":
            obj.setvar(o["var"], o["value"])
            ctx.check(obj.getvar(o["var"]) == o["value"], "setvar-getvar")
        elif k == "clock":
            world.clock.jump(o["to"])
        elif k == "user":
            os.environ["LOGNAME"] = o["user"]
        elif k == "bare":
            # Columns without any header, as other programs write them.
            if not len(obj.robs) or obj.robs[0] <= 0:
                continue
            rows = [["%.6g" % v for v in row] for row in zip(*[getattr(obj, c) for c in COLS[: o["cols"]]])]
            # An uncertainty which is missing, not positive or not a number makes its whole column unusable.
            bad = set(COLS[o["cols"] :])
            if o.get("blemish") and o["blemish"][0] < o["cols"]:
                col, where, what = o["blemish"]
                row = rows[int(where * len(rows))]
                bad.add(COLS[col])
                if what == "missing":
                    bad.update(COLS[col:])
                    del row[col:]
                else:
                    row[col] = what
            text = "\n".join(" ".join(row) for row in rows) + "\n"
            want = {}
            header = o.get("header", [])
            if header:
                # The first of several lines about a parameter counts.
                text = "\n".join(["PDF"] + [h[0] % h[2] for h in header] + ([o["marker"]] if o["marker"] else []) + [text])
                for h in header:
                    want.setdefault(h[1], float("%g" % h[2]))
            got = world.PDFDataSet("bare").readStr(text)
            check_header(ctx, got, want, text)
            for c in COLS:
                expect = [0.0] * len(rows) if c in bad else getattr(obj, c)
                df = world.diff(world._plain(expect), world._plain(getattr(got, c)), rel=6e-6, path=c)
                ctx.check(df is None, "bare-columns-differ", df)
        elif k in ("cut", "damage", "crash"):
            if name not in files:
                continue
            snap, data = files[name]
            cut = None
            if k == "cut":
                n = len(data)
                cut = max(0, n - 1 - int(o["at"] * 60)) if o["end"] else int(o["at"] * n)
                content, label = data[:cut], "cut"
            elif k == "damage":
                label, content = disk.damage(random.Random(o["seed"]), data)
            else:
                if not len(obj.robs):
                    continue
                d.put(name, data)
                d.arm([{"op": "write", "nth": o["nth"], "kind": "crash", "frac": o["frac"]}])
                try:
                    obj.write(path)
                except disk.SimCrash:
                    pass
                d.dead = False
                d.release()
                d.clear()
                content, label = disk.after_crash(random.Random(o["seed"]), data, d.get(name) or b"", o["block"]), "crash"
            ctx.fault("damage-" + label)
            d.put(name, content)
            check_damaged(ctx, d, o, path, content, cut, snap, data, label, i, objs)
            expect_closed("read", i)
            d.put(name, data)
        elif k == "fault":
            content = files[name][1] if name in files else b"##### start data\n1.0 2.0\n2.0 3.0\n3.0 3.5\n4.0 3.0\n5 2\n6 1\n"
            if o["content"] == "cut":
                content = content[: len(content) // 2]
            elif o["content"] == "binary":
                content = b"\xff\xfe\x00" + content
            elif o["content"] == "text":
                content = b"nothing of use\n"
            d.put(name, content)
            check_fault(ctx, d, o, path, i)
            if name in files:
                d.put(name, files[name][1])
        elif k == "seq":
            check_seq(ctx, d, o, obj, i)
            expect_closed("FromSequence", i)


def check_loadpdf(ctx, d, path, dataset, i):
    ext = world.PDFPeakExtraction()
    ext.qmax, ext.filename, ext.cres = 3.0, "x", 0.5
    if dataset is not None:
        ext.loadpdf(dataset)
        src = dataset
    else:
        ext.loadpdf(path)
        src = world.PDFDataSet("ref").read(path)
        ctx.check(ext.filename == os.path.abspath(path), "loadpdf-filename")
    for a, c in zip(("x", "y", "dx", "dy"), COLS):
        df = world.diff(world._plain(getattr(src, c)), world._plain(getattr(ext, a)), path=a)
        ctx.check(df is None, "loadpdf-columns", df)
    ctx.check(ext.qmax_reportedbypdf == src.qmax, "loadpdf-qmax", "%r %r" % (ext.qmax_reportedbypdf, src.qmax))
    ctx.check(ext.qmax is None and ext.cres is None, "loadpdf-keeps-old-variables")
    ctx.nontrivial = True
    ctx.log(i, "loadpdf", world._plain(ext.x))
    ctx.probe("loadpdf")


def check_damaged(ctx, d, o, path, content, cut, snap, data, label, i, objs):
    target = world.PDFDataSet("new")
    if o.get("used"):
        target.readStr(data.decode("utf8"))
    asstr = o.get("str")
    try:
        text = content.decode("utf8")
    except UnicodeDecodeError:
        asstr = False
    err = None
    try:
        if asstr:
            target.readStr(text)
        else:
            target.read(path)
    except Exception as e:
        err = e
    ended = "read" if err is None else type(err).__name__
    ctx.log(i, label, ended, len(content))
    ctx.state("damaged", label, ended)
    if err is not None:
        doc = world.PDFDataFormatError if asstr else world.SrMiseFileError
        ctx.check(isinstance(err, doc), "undocumented-error", lambda: "%s: %s: %s" % (label, type(err).__name__, err))
        return
    n = lengths(target)
    ctx.check(len(set(n)) == 1, "columns-of-different-lengths", lambda: "%s: %s" % (label, n))
    if cut is not None:
        m = n[0]
        ctx.check(1 <= m <= len(snap["robs"]), "rows-invented", "%d of %d" % (m, len(snap["robs"])))
        last = m - 1
        for c in COLS:
            got = world._plain(getattr(target, c))
            if c in ("drobs", "dGobs") and not any(got):
                continue
            df = world.diff(snap[c][:last], got[:last], rel=6e-6, path=c)
            ctx.check(df is None, "cut-file-misread", df)
        ctx.probe("cut-file-read")


def check_fault(ctx, d, o, path, i):
    d.arm([o["fault"]])
    err = None
    what = o["what"]
    try:
        if what == "read":
            world.PDFDataSet("x").read(path)
        elif what == "loadpdf":
            world.PDFPeakExtraction().loadpdf(path)
        else:
            world.FromSequence(path)
    except Exception as e:
        err = e  # keeps the frames of the failed call alive, as a debugger or log would
    hard = d.hard_fired()
    left = d.still_open()
    d.clear()
    ctx.log(i, "fault", what, type(err).__name__ if err else "returned", hard)
    ctx.state("fault", what, o["fault"]["op"], o["fault"]["kind"], type(err).__name__ if err else "returned")
    ctx.check(not (hard and err is None), "read-error-swallowed", "%s %s" % (what, hard))
    if hard:
        ctx.check(isinstance(err, (OSError, world.SrMiseFileError)), "read-error-changed", lambda: "%s: %r" % (what, err))
    ctx.check(not left, "file-left-open", lambda: "%s after %r leaves %s open" % (what, err, left))
    err = None
    gc.collect()


def check_seq(ctx, d, o, obj, i):
    n = max(6, min(len(obj.robs), 20))
    x = [0.5 + 0.25 * k for k in range(n)]
    y = [float("%.6g" % v) for v in (list(obj.Gobs) + x)[:n]]
    text = "# a comment\n# another\n" + "\n".join("%g %g" % p for p in zip(x, y)) + "\n"
    data = text.encode()
    label = "good"
    if o["damage"]:
        label, data = ("cut", data[: int(o["at"] * len(data))]) if o["at"] < 0.5 else disk.damage(random.Random(o["seed"]), data)
        ctx.fault("sequence-damage-" + label)
    d.put("bl.dat", data)
    err = None
    try:
        f = world.FromSequence(d.path("bl.dat"))
    except Exception as e:
        err = e
    ctx.check(not d.still_open(), "file-left-open", lambda: "FromSequence %r" % err)
    ctx.log(i, "seq", label, type(err).__name__ if err else "returned")
    ctx.state("seq", label, type(err).__name__ if err else "returned")
    if label == "good":
        ctx.check(err is None, "sequence-rejected", repr(err))
        sx, sy = f.metadict["x"][0], f.metadict["y"][0]
        ctx.check(world.diff(x, world._plain(sx)) is None, "sequence-differs")
        y = [float("%g" % v) for v in y]
        ctx.check(world.diff(y, world._plain(sy)) is None, "sequence-differs")
        part = f.actualize([], "internal")
        got = world._plain(part.value(np.array(x)))
        tol = 1e-9 * (1 + max(abs(v) for v in y))
        ctx.check(len(got) == n and all(abs(a - b) <= tol for a, b in zip(got, y)), "sequence-evaluates-otherwise", lambda: "%s, not %s" % (got, y))
    elif err is None:
        ctx.check(len(f.metadict["x"][0]) == len(f.metadict["y"][0]), "columns-of-different-lengths")
