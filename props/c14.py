"""C14: the command line gives the API's results and saves what it can."""
import builtins
import copy
import json
import os
import random
import re
import sys

import numpy as np

from sim import disk, world
from sim.core import SimCrash
from sim.world import r3

QUICK_RUNS = 700
THOROUGH_RUNS = 60000
LIMIT = 180
LEVEL = "exploration"
RULE = (
    "a run is a chain of 1 to 4 commands on one PDF file and the .srmise files made from it, with random options, damaged or "
    "unreadable inputs and outputs which cannot be saved; non-trivial: at least one command gave a result; distinct by digest "
    "of saved files and printed results"
)
STATE_MEASURE = "(kind of input, options used, outcome, outputs saved)"
REAL = ["diffpy.srmise.applications.extract.main", "optparse", "diffpy.srmise.applications.plot", "matplotlib (Agg)",
        "everything below"]
STUB = ["process (commands run one after another in this one)", "disk (faults)", "terminal", "clock"]
ASSUMPTIONS = ["each command starts with the logging and plotting settings of a fresh process"]
SHRINK_LISTS = ("ops",)


def par(rng, v):
    return "%r%s" % (r3(v), rng.choice(["", "", "c"]))


def gen_baseline(rng, x0, x1):
    k = rng.choice(["none"] * 3 + ["estimate", "bcrystal", "bpoly0", "bpoly1", "bpoly2", "bseq", "bspherical", "bsrmise", "bad", "nothing"])
    if k == "none":
        return None
    if k == "estimate":
        return ["baseline", rng.choice(["Polynomial(degree=1)", "Polynomial(degree=0)", "Polynomial(1)"])]
    if k == "nothing":
        return ["baseline", "Polynomial(degree=-1)"]
    if k == "bad":
        return ["baseline", rng.choice(["Polynom(1)", "Polynomial(", "__import__('os')"])]
    if k == "bcrystal":
        return [k, par(rng, rng.uniform(0.005, 0.05))]
    if k == "bpoly0":
        return [k, par(rng, rng.uniform(-0.5, 0.5))]
    if k == "bpoly1":
        return [k, par(rng, rng.uniform(-0.4, 0.1)), par(rng, rng.uniform(-0.5, 0.5))]
    if k == "bpoly2":
        return [k, par(rng, rng.uniform(-0.02, 0.02)), par(rng, rng.uniform(-0.4, 0.1)), par(rng, rng.uniform(-0.5, 0.5))]
    if k == "bseq":
        return [k, [[r3(x0 - 0.2 + (x1 - x0 + 0.4) * i / 5.0), r3(rng.uniform(-0.3, 0.3))] for i in range(6)]]
    if k == "bspherical":
        return [k, par(rng, rng.uniform(-0.2, -0.01)), par(rng, x1 * rng.uniform(1.2, 2.0))]
    return [k, rng.randrange(100)]


def gen_command(rng, case, first):
    x0 = case["x0"]
    x1 = x0 + case["dx"] * (case["n"] - 1)
    o = {}
    if rng.random() < 0.4:
        o["range"] = [r3(x0 + rng.uniform(-0.1, 0.3) * (x1 - x0)), r3(x1 - rng.uniform(-0.1, 0.3) * (x1 - x0))]
    if rng.random() < 0.4:
        o["qmax"] = rng.choice(["automatic", "0", repr(r3(np.pi / (case["dx"] * rng.uniform(1.0, 1.6))))])
    if rng.random() < 0.4:
        o["nyquist"] = rng.random() < 0.4
    if rng.random() < (0.7 if first else 0.3):
        w = r3(max(0.5, rng.uniform(7, 10) * case["dx"]))
        o["pf"] = rng.choice(["GaussianOverR(%r)" % w, "GaussianOverR(maxwidth=%r)" % w, "Gaussian(%r)" % w])
        if rng.random() < 0.06:
            o["pf"] = rng.choice(["Lorentzian(0.5)", "GaussianOverR(", "peaks.Gaussian(0.7)"])
    if rng.random() < 0.3:
        o["cres"] = r3(rng.choice([0, 1, 2, 2, 3, 3, 4, 4]) * case["dx"])  # 0: every point a cluster
    if rng.random() < 0.7:
        o["supersample"] = rng.choice([1.0, 1.5, 2.0])
    if rng.random() < 0.35:
        o["me"] = rng.choice(["AIC", "AICc"]) if rng.random() < 0.95 else "BIC"
    if rng.random() < 0.6:
        o["bl"] = gen_baseline(rng, x0, x1)
    t = rng.random()
    if t < 0.4:
        o["dg"] = case["edy"]
        if rng.random() < 0.3:
            o["dg_mode"] = "absolute"
    elif t < 0.65:
        o["dg_mode"] = rng.choice(["max-fraction", "ptp-fraction", "dG-fraction", "data"])
        if rng.random() < 0.6:
            o["dg"] = r3(rng.uniform(0.03, 0.3)) if o["dg_mode"] != "dG-fraction" else r3(rng.uniform(0.5, 3))
    if rng.random() < 0.2:
        o["scale"] = rng.random() < 0.6
    if rng.random() < 0.25:
        o["extract"] = rng.random() < 0.3
    o["verbosity"] = rng.choice([None, None, None, "-i", "-q", "-s", "-v", "--verbose", "--silent"])
    if rng.random() < 0.06:
        o["plot"] = rng.choice(["--plot", "-p", "--liveplot", "-l", "-lw"])
    cmd = {"op": "command", "input": "pdf" if first or rng.random() < 0.35 else rng.randrange(100), "options": o,
           "save": rng.choice([None, "a", "a", "b"]), "pwa": rng.choice([None, "p", "p"]), "relative": rng.random() < 0.3,
           "order": rng.randrange(1 << 20)}
    if first:
        cmd["save"] = "a"
    t = rng.random()
    if t < 0.2:
        cmd["faults"] = []
        for name in ("srmise", "pwa"):
            if rng.random() < 0.6:
                cmd["faults"].append(disk.gen_fault(rng, rng.choice(["open", "write", "write", "close"]), ["EIO", "ENOSPC"], 2, match="." + name))
    elif t < 0.27:
        cmd["faults"] = [disk.gen_fault(rng, rng.choice(["read", "open"]), ["EIO"], 3)]
    return cmd


def generate(rng, tier):
    case = world.gen_case(rng, "tiny", cls="PDF")
    case["edy"] = case["edy"] or 0.2
    cols = rng.choice([2, 2, 4, 4, "zero"])
    ops = [gen_command(rng, case, True)]
    for _ in range(rng.randint(0, 3)):
        if rng.random() < 0.2:
            ops.append({"op": "damage", "file": rng.randrange(100), "how": rng.choice(["line", "line", "any", "bytes", "bytes", "copy"]),
                        "at": rng.random(), "seed": rng.randrange(10**6)})
        ops.append(gen_command(rng, case, False))
    return {"case": case, "cols": cols, "qmax": rng.choice([0.0, 0.0, r3(np.pi / (case["dx"] * rng.uniform(1.0, 1.6)))]),
            "ops": ops, "bufsize": rng.choice([0, 0, 200, 1000])}


class Result(object):
    pass


def plain(text):
    """Printed text without the addresses of objects."""
    return re.sub(r" at 0x[0-9a-f]+", "", text)


def pdf_text(plan):
    case = plan["case"]
    x, y = world.synth(case)
    lines = ["[DEFAULT]", "version = sim", "stype=X"]
    if plan["qmax"]:
        lines.append("qmax=%r" % plan["qmax"])
    lines += ["##### start data", "#L r(A) G(r) d_r d_Gr"]
    rs = random.Random(case["nseed"])
    for a, b in zip(x, y):
        row = [a, b]
        if plan["cols"] == 4:
            row += [0.001, case["edy"] * (1 + 0.2 * rs.random())]
        elif plan["cols"] == "zero":
            row += [0.0, 0.0]
        lines.append(" ".join("%.6f" % v for v in row))
    return "\n".join(lines) + "\n"


def make_argv(o, path):
    """The options as given on the command line, each a list."""
    out = []
    if "range" in o:
        out.append(["--range"] + [repr(v) for v in o["range"]])
    for k in ("qmax", "pf", "me", "cres", "supersample", "dg"):
        if k in o:
            v = o[k] if isinstance(o[k], str) else repr(o[k])
            out.append(["-m", v] if k == "me" and o.get("qmax") else ["--%s=%s" % (k, v)] if k == "cres" else ["--" + k, v])
    if "dg_mode" in o:
        out.append(["--dg-mode", o["dg_mode"]])
    for k in ("nyquist", "scale", "extract"):
        if k in o:
            out.append(["--" + k] if o[k] else ["--no-" + k])
    b = o.get("bl")
    if b:
        if b[0] in ("bseq", "bsrmise"):
            out.append(["--" + b[0], path(b[1])])
        else:
            out.append(["--" + b[0]] + b[1:])
    for k in ("verbosity", "plot"):
        if o.get(k):
            out.append([o[k]])
    return out


def number(s):
    return float(s[:-1] if s.endswith("c") else s), not s.endswith("c")


def make_bl(b, path):
    if b is None:
        return None
    k = b[0]
    if k == "baseline":
        return world.Polynomial(degree=int(re.search(r"-?\d+", b[1]).group()))
    if k == "bseq":
        f = world.FromSequence(path(b[1]))
        return f.actualize([], "internal")
    if k == "bsrmise":
        e = world.PDFPeakExtraction()
        e.read(path(b[1]))
        return e.extracted.baseline.copy()
    pars, free = zip(*[number(s) for s in b[1:]])
    pars, free = list(pars), list(free)
    if k == "bcrystal":
        pars, free = [-4 * np.pi * pars[0], 0.0], [free[0], False]
    f = world.NanoSpherical() if k == "bspherical" else world.Polynomial(degree=len(pars) - 1)
    return f.actualize(np.array(pars), "internal", free=free)


def api(o, kind, source, path):
    """What the settings give through the API."""
    res = Result()
    ext = world.PDFPeakExtraction()
    if kind == "damaged":
        # A .srmise file which lost its title line may still read as one, or as a PDF.
        try:
            ext.read(source)
        except Exception:
            ext = world.PDFPeakExtraction()
            ext.loadpdf(source)
    elif kind == "srmise":
        ext.read(source)
    else:
        ext.loadpdf(source)
    fresh = ext.effective_dy is None
    kw = {}
    if "pf" in o:
        name, w = re.match(r"(\w+)\((?:maxwidth=)?([\d.]+)\)", o["pf"]).groups()
        kw["pf"] = [world.make_pf([name, float(w)])]
    if "range" in o:
        kw["rng"] = list(o["range"])
    if "qmax" in o:
        kw["qmax"] = "automatic" if o["qmax"] == "automatic" else float(o["qmax"])
    for k in ("cres", "supersample", "nyquist", "scale"):
        if k in o:
            kw[k] = o[k]
    if "me" in o:
        kw["error_method"] = world.EVALUATORS[o["me"]]
    bl = make_bl(o.get("bl"), path)
    if bl is not None:
        kw["baseline"] = bl
    mode, dg = o.get("dg_mode"), o.get("dg")
    y = np.asarray(ext.y)
    one = np.ones(len(y))
    if mode is None:
        if dg is not None:
            mode = "absolute"
        elif fresh:
            mode = "dG-fraction" if ext.dy is not None and np.all(np.asarray(ext.dy) > 0) else "max-fraction"
    if mode == "absolute":
        kw["effective_dy"] = dg * one
    elif mode == "max-fraction":
        kw["effective_dy"] = (0.05 if dg is None else dg) * y.max() * one
    elif mode == "ptp-fraction":
        kw["effective_dy"] = (0.05 if dg is None else dg) * (y.max() - y.min()) * one
    elif mode == "dG-fraction":
        kw["effective_dy"] = (1.0 if dg is None else dg) * np.asarray(ext.dy)
    ext.setvars(**kw)
    res.cov = None
    if o.get("extract", True):
        cov = ext.extract()
        res.cov = plain(str(cov))
    res.text = ext.writestr()
    res.pwa = None if ext.extracted is None else ext.writepwastr("n/a")
    res.str = plain(str(ext))
    res.kw = kw
    res.ext = ext
    if o.get("plot") in ("-p", "--plot"):
        from diffpy.srmise.applications.plot import makeplot

        twin = world.PDFPeakExtraction()
        twin.readstr(res.text)
        res.plotfails = None
        try:
            makeplot(ext)
        except Exception as e:
            res.plotfails = e
        world.plt.close("all")
    return res


def run_main(argv, ctx):
    """(exception or None, printed text) of the command in what is a fresh process but for the modules loaded."""
    from diffpy.srmise.applications import extract

    old = sys.argv
    sys.argv = ["srmise"] + argv
    oldinput, builtins.input = builtins.input, lambda *a: ""
    out = world.Silent()
    err = None
    try:
        with out:
            extract.main()
    except (Exception, SystemExit) as e:
        err = e
    finally:
        sys.argv = old
        builtins.input = oldinput
        world.plt.close("all")
        world.reset_levels()
    return err, plain("".join(out.text))


class Chain(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.disk = disk.activate(disk.SimDisk(ctx, (), plan["bufsize"]))
        self.disk.put("d.gr", pdf_text(plan).encode())
        self.saved = []  # names of .srmise files
        self.done = 0

    def path(self, name):
        return name if self.relative else self.disk.path(name)

    def damage(self, op):
        d = self.disk
        names = sorted(set(self.saved)) + ["d.gr"]
        name = names[op["file"] % len(names)]
        data = d.get(name)
        rng = random.Random(op["seed"])
        if op["how"] == "copy":
            d.put("b.srmise", data)
            self.saved.append("b.srmise")
            return name
        if op["how"] == "line":
            lines = data.split(b"\n")
            data = b"\n".join(lines[: int(op["at"] * len(lines))]) + b"\n"
        elif op["how"] == "any":
            data = data[: int(op["at"] * len(data))]
        else:
            data = disk.damage(rng, data)[1]
        self.ctx.fault("disk-damage-" + op["how"])
        d.put(name, data)
        return name

    def command(self, op, what):
        ctx, d = self.ctx, self.disk
        self.relative = op["relative"]
        o = dict(op["options"])
        names = sorted(set(self.saved))
        name = "d.gr" if op["input"] == "pdf" or not names else names[op["input"] % len(names)]
        b = o.get("bl")
        if b and b[0] == "bseq":
            d.put("seq.xy", "".join("%r %r\n" % tuple(v) for v in b[1]).encode())
            o["bl"] = ["bseq", "seq.xy"]
        elif b and b[0] == "bsrmise":
            if not names:
                o["bl"] = None
            else:
                o["bl"] = ["bsrmise", names[b[1] % len(names)]]
        groups = make_argv(o, self.path)
        if op["save"]:
            groups.append(["--save", self.path(op["save"] + ".srmise")])
        if op["pwa"]:
            groups.append(["--pwa", self.path(op["pwa"] + ".pwa")])
        rng = random.Random(op["order"])
        groups.append([self.path(name)])
        rng.shuffle(groups)
        argv = [w for g in groups for w in g]
        text = d.get(name)
        kind = "srmise" if re.search(rb"^#+ PDF Peak Extraction[ \t\r]*$", text, re.M) else "pdf" if name == "d.gr" else "damaged"
        before = {n: d.get(n) for n in d.names()}
        # What it should give.
        bad = "pf" in o and not re.fullmatch(r"(Gaussian|GaussianOverR)\((maxwidth=)?[\d.]+\)", o["pf"]) or o.get("me") == "BIC"
        bad = bad or b and b[0] == "baseline" and not b[1].startswith("Polynomial(") or b and b[0] == "baseline" and not b[1].endswith(")")
        want = fails = None
        with world.Silent():
            try:
                if not bad:
                    want = api(o, kind, self.path(name), self.path)
            except Exception as e:
                fails = e
            world.reset_levels()
        for n, v in before.items():
            ctx.check(d.get(n) == v, "reference-changed-files", n)
        target = {None: name, ".srmise": "%s.srmise" % op["save"], ".pwa": "%s.pwa" % op["pwa"]}
        faults = [dict(f, match=target[f.get("match")]) for f in op.get("faults") or []]
        d.arm(faults)
        err, printed = run_main(argv, ctx)
        hard = d.hard_fired()
        leaked = d.still_open()
        d.clear()
        readfault = bool(hard) and any(f["match"] == name for f in faults)
        info = lambda extra: "%s: %s: %s" % (what(), " ".join(argv), extra)
        ctx.check(not isinstance(err, (KeyboardInterrupt, SimCrash)), "unexpected", lambda: repr(err))
        outs = [(op["save"] and op["save"] + ".srmise", "text"), (op["pwa"] and op["pwa"] + ".pwa", "pwa")]
        outs = [(n, k) for n, k in outs if n]
        if bad:
            ctx.check(err is not None or "Could not" in printed, "bad-option-not-reported", lambda: info(printed[-300:]))
        if bad or fails is not None or readfault and err is not None:
            if fails is not None:
                ctx.check(err is not None, "error-not-reported", lambda: info("no error, API %r" % fails))
            for n, k in outs:
                ctx.check(d.get(n) == before.get(n), "output-despite-error", lambda: info(n))
            return "refused"
        if readfault:
            ctx.probe("read again")
        plotfails = getattr(want, "plotfails", None)
        ctx.check(err is None or plotfails is not None and type(err) is type(plotfails), "command-failed", lambda: info("%r, API succeeds" % err))
        ctx.check(want.str in printed, "result-not-printed", lambda: info("%r lacks %r" % (printed[-600:], want.str[-600:])))
        if want.cov is not None:
            ctx.check(want.cov in printed, "covariance-not-printed", lambda: info("%r lacks %r" % (printed[-600:], want.cov[-600:])))
        saved = []
        for n, k in outs:
            mine = [f for f in faults if f["match"] in n]
            fired = bool(mine) and hard and ("Could not save" in printed and n in printed)
            got = d.get(n)
            if getattr(want, k) is None:
                ctx.check("Could not save" in printed and n in printed, "unsaved-not-reported", lambda: info(n))
                ctx.check(got == before.get(n), "output-despite-error", lambda: info(n))
                continue
            if fired:
                d.remove(n)
                if n in self.saved:
                    self.saved = [s for s in self.saved if s != n]
                continue
            ctx.check(not mine or not [f for f in hard if f[0] in ("write", "close")] or self.otherfired(mine, faults), "failed-save-not-reported",
                      lambda: info("%s: %s" % (n, hard)))
            ctx.check(got is not None, "output-missing", lambda: info(n))
            a, c = world.body(getattr(want, k)), world.body(got.decode())
            ctx.check(a == c, "saved-result-differs", lambda: info("%s: %s" % (n, first_diff(a, c))))
            saved.append(n)
            if k == "text":
                self.saved.append(n)
        ctx.check(not leaked, "file-left-open", lambda: info(leaked))
        if "a.srmise" in saved and len(want.ext.x) > 3 and kind == "pdf" and o.get("extract", True):
            self.defaults(o, want, info)
        for n in before:
            if n not in [x[0] for x in outs]:
                ctx.check(d.get(n) == before[n], "other-file-changed", lambda: info(n))
        self.done += 1
        return "done", kind, tuple(sorted(saved)), tuple(sorted(o))

    def otherfired(self, mine, faults):
        return len(faults) > len(mine)

    def defaults(self, o, want, info):
        """Documented defaults."""
        ctx = self.ctx
        ext = world.PDFPeakExtraction()
        ext.read(self.disk.path("a.srmise"))
        x = np.asarray(ext.x)
        dr = (x[-1] - x[0]) / (len(x) - 1)
        if "supersample" not in o:
            ctx.check(ext.supersample == 4.0, "wrong-default", lambda: info("supersample %s" % ext.supersample))
        if "nyquist" not in o:
            ctx.check(bool(ext.nyquist) == (ext.qmax > 0), "wrong-default", lambda: info("nyquist %s, qmax %s" % (ext.nyquist, ext.qmax)))
        if "scale" not in o:
            ctx.check(not ext.scale, "wrong-default", lambda: info("scale"))
        if "cres" not in o:
            c = np.pi / ext.qmax if ext.qmax > 0 else 4 * dr
            ctx.check(abs(ext.cres - c) < (1e-4 if ext.qmax > 0 else 1.5 / len(x)) * c, "wrong-default", lambda: info("cres %s, not %s" % (ext.cres, c)))
        if "range" not in o:
            ctx.check(list(ext.rng) == [x[0], x[-1]], "wrong-default", lambda: info("range %s" % ext.rng))


def first_diff(a, b):
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return "%r, not %r" % (y[:300], x[:300])
    return "lengths differ"


def execute(plan, ctx):
    s = Chain(plan, ctx)
    cwd = os.getcwd()
    os.chdir(s.disk.root)
    try:
        for i, op in enumerate(plan["ops"]):
            what = lambda: "command %d" % i
            r = s.damage(op) if op["op"] == "damage" else s.command(op, what)
            ctx.state(op["op"], r)
            files = []
            for n in sorted(s.disk.names()):
                try:
                    files.append([n, world.body(s.disk.get(n).decode())])
                except UnicodeDecodeError:
                    files.append([n, "binary"])
            ctx.log(i, r, json.dumps(files).replace(s.disk.root, ""))
    finally:
        os.chdir(cwd)
    ctx.nontrivial = s.done > 0
    ctx.count("commands", s.done)


def shrink(plan):
    for i, op in enumerate(plan["ops"]):
        if op["op"] != "command":
            continue
        for k in sorted(op["options"]):
            q = copy.deepcopy(plan)
            del q["ops"][i]["options"][k]
            yield q
        for k in ("faults", "save", "pwa"):
            if op.get(k):
                q = copy.deepcopy(plan)
                q["ops"][i][k] = None
                yield q
