"""C18: plots and the plot command show the model chosen."""
import io
import os
import random
import sys
import xml.dom.minidom

import numpy as np

from sim import disk, instants, world  # first: installs the seams
from sim.core import SimCrash, SkipRun
from sim.world import plt, r3

import matplotlib
from matplotlib.colors import to_rgba

from diffpy.srmise.applications import plot as plotapp
from diffpy.srmise.pdfpeakextraction import resample

QUICK_RUNS = 450
THOROUGH_RUNS = 40000
LIMIT = 180
LEVEL = "exploration"
RULE = (
    "a run is a sequence of plots in one process - by the command on saved, damaged or unreadable files with files of distances "
    "and outputs which may fail, by makeplot with options, by the plot methods - of an extraction, initial peaks and a "
    "PeakStability series, some interrupted at chosen lines; what each figure shows is read back from its artists and compared "
    "with values computed from the parts; non-trivial: at least two figures read back; distinct by digest of the event log"
)
STATE_MEASURE = "(kind of plot, object shown, options, outcome)"
REAL = ["diffpy.srmise.applications.plot", "PeakStability", "PeakExtraction.plot", "ModelCluster.plottable", "optparse", "matplotlib (Agg)", "files"]
STUB = ["process (commands run one after another in this one)", "disk (faults)", "instants (sys.monitoring line events)", "display"]
ASSUMPTIONS = ["values of single peaks and baselines at given points are taken as they are (N01, N02)"]
SHRINK_LISTS = ("ops",)

GREEN, BLUE, RED, BLACK = to_rgba("g"), to_rgba("b"), to_rgba("r"), to_rgba("k")

DISTANCES = [
    "1.5\n2.25\n3.125\n", "# found\n# 3 of them\n2.5\n3.75\n", "2.25\n", "12.5\n  13.25\n", "2\r\n3\r\n", "1.0e0\n-2\n", "2.5\n\n3.5\n",
    "one\ntwo\n", "2.5 3.5\n", "# none\n", "", "2.5\nx\n", "\n\n2.5\n", "#a\n#b\n1.75",
]


def distances_of(text):
    """The distances a file lists, one per line after lines of comments; None if there are none or any line is something else."""
    lines = text.replace("\r\n", "\n").split("\n")
    while lines and (lines[0].startswith("#") or not lines[0].strip()):
        lines.pop(0)
    while lines and not lines[-1].strip():
        lines.pop()
    try:
        return [float(v) for v in lines] or None
    except ValueError:
        return None


ERRS = [[0.3], [0.3, 0.6], [0.3, 0.6, 1.0], [0.6, 0.3], [0.3, 0.3, 1.2]]


def gen_kwds(rng, case):
    x0 = case["x0"]
    x1 = x0 + case["dx"] * (case["n"] - 1)
    k = {}
    if rng.random() < 0.3:
        k["scale"] = rng.choice([0.5, 2.0, 10.0])
    for name in ("show_fit", "show_individual", "fill_individual", "show_observed", "show_residual", "show_annotation"):
        if rng.random() < 0.15:
            k[name] = False
    if k.get("show_fit") is False and k.get("show_individual") is False:
        k.pop("show_observed", None)
    if rng.random() < 0.2:
        k["xlo"] = r3(x0 + rng.choice([-0.5, -0.2, 0.3]))
    if rng.random() < 0.2:
        k["xhi"] = r3(x1 + rng.choice([0.5, 0.2, -0.3]))
    if rng.random() < 0.15:
        k["cmp_height"] = rng.choice([0, 10.0, 20.0])
    if rng.random() < 0.15:
        k["dg_height"] = 0
    if rng.random() < 0.1:
        k["mask_residual"] = r3(rng.uniform(0.05, 0.5))
    if rng.random() < 0.15:
        k["dgmin"] = rng.choice([0.2, 0.4])
    if rng.random() < 0.15:
        k["dgmax"] = rng.choice([0.4, 0.7, 2.0])
    if rng.random() < 0.15:
        k["datalabel"] = "data"
    if rng.random() < 0.1:
        k["dgformatstr"] = "dg = %.3f"
    if rng.random() < 0.3:
        k["figure"] = rng.choice(["own", "other", "again", "again"])
    return k


def generate(rng, tier):
    case = world.gen_case(rng, "tiny", cls="PDF")
    case["edy"] = case["edy"] or 0.3
    case["round"] = True  # as read from a file
    errs = rng.choice(ERRS)
    plan = {"case": case, "errs": errs, "second": rng.random() < 0.4, "ops": [], "bufsize": rng.choice([0, 0, 100, 500]),
            "unext": rng.random() < 0.9, "edit": rng.randrange(1 << 20) if rng.random() < 0.25 else None}
    for _ in range(rng.randint(3, 8)):
        k = rng.choice(["command"] * 4 + ["make"] * 4 + ["plot", "psplot", "series", "animate", "damage", "change"])
        o = {"op": k, "what": rng.choice(["ext", "ext", "stab", "stab", "unext"])}
        if k == "command":
            o.update(model=rng.choice([None, None, 0, 1, 2, 1, 7]), show=rng.random() < 0.1)
            o["what"] = rng.choice([o["what"]] * 8 + ["missing", "pdf"])
            if rng.random() < 0.6:
                o["compare"] = rng.choice([rng.randrange(len(DISTANCES))] * 8 + ["missing"])
            if rng.random() < 0.4:
                o["output"] = rng.choice(["a", "b"])
                o["format"] = rng.choice([None, "png", "svg", "svg", "pdf", "eps"])
            t = rng.random()
            if t < 0.25:
                o["faults"] = [disk.gen_fault(rng, rng.choice(["read", "open", "read"]), ["EIO", "EACCES", "short", "EINTR"], 3)]
                if rng.random() < 0.5:
                    o["faults"][0]["match"] = "compare"
            elif t < 0.5 and "output" in o:
                o["faults"] = [disk.gen_fault(rng, rng.choice(["open", "write", "write", "close"]), ["EIO", "ENOSPC", "short", "EINTR"], 3, match="out-")]
            for f in o.get("faults", ()):
                if f["kind"] == "short":
                    f["frac"] = max(0.3, f["frac"])
            o["order"] = rng.randrange(1 << 20)
        elif k == "make":
            o["kwds"] = gen_kwds(rng, case)
            o["ip"] = rng.choice([None, None, [r3(case["x0"] + 0.3), r3(case["x0"] + 0.9)], [2.5], []])
            o["array"] = rng.random() < 0.5
        elif k == "plot":
            o["joined"] = rng.choice([None, False, True])
        elif k == "animate":
            o["results"] = rng.choice([None, [0], [1, 0]])
        elif k == "change":
            o.update(how=rng.choice(["edit", "edit", "fit", "cluster", "cluster", "extract", "run"]), seed=rng.randrange(1 << 20), errs=rng.choice(ERRS), edy=rng.choice([0.2, 0.5, 0.9]))
        elif k == "damage":
            o.update(how=rng.choice(["cut", "line", "swap", "restore"]), at=rng.random())
        if k in ("command", "make") and rng.random() < 0.2:
            o["interrupt"] = rng.choice([rng.randrange(40), rng.randrange(200), rng.randrange(2000), rng.randrange(12000)])
        if k in ("make", "psplot") and rng.random() < 0.3:
            o["current"] = rng.randrange(3)
        plan["ops"].append(o)
        if k in ("plot", "make", "psplot") and "interrupt" not in o and rng.random() < 0.4:
            # The same again after something changed.
            how = rng.choice(["edit", "edit", "fit", "cluster", "cluster", "extract", "run"])
            plan["ops"].append({"op": "change", "what": o["what"], "how": how, "seed": rng.randrange(1 << 20), "errs": rng.choice(ERRS),
                                "edy": rng.choice([0.2, 0.5, 0.9])})
            plan["ops"].append(dict(o))
    return plan


class Shown(object):
    """What a plot should show."""

    def __init__(self, parts, baseline, r, y, dy, ppe, results=None):
        self.parts, self.baseline, self.r, self.y, self.dy = parts, baseline, np.asarray(r), np.asarray(y), np.asarray(dy)
        self.ppe, self.results = ppe, results

    def bl(self, x):
        x = np.asarray(x, dtype=float)
        return np.zeros(len(x)) if self.baseline is None else np.asarray(self.baseline.value(x)) + np.zeros(len(x))

    def value(self, x):
        x = np.asarray(x, dtype=float)
        return self.bl(x) + sum((np.asarray(p.value(x)) for p in self.parts), np.zeros(len(x)))


def close(a, b, size):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-6 * size))


def xy(line):
    return np.ma.filled(np.ma.asarray(line.get_xdata(), dtype=float), np.nan), np.ma.filled(np.ma.asarray(line.get_ydata(), dtype=float), np.nan)


def image_fault(data, fmt):
    """What is wrong with a saved figure, or None."""
    if not data:
        return "nothing written"
    if fmt == "png":
        from PIL import Image

        try:
            Image.open(io.BytesIO(data)).load()
        except Exception as e:
            return repr(e)
    elif fmt == "svg":
        try:
            xml.dom.minidom.parseString(data)
        except Exception as e:
            return repr(e)
    elif fmt == "pdf":
        if not data.startswith(b"%PDF-") or not data.rstrip().endswith(b"%%EOF"):
            return "not a whole PDF document"
    elif not data.startswith(b"%!PS") or not data.rstrip().endswith((b"showpage", b"%%EOF")):
        return "not a whole PostScript document"
    return None


class Run(object):
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.read = 0
        self.last = None
        case = plan["case"]
        ps = world.PeakStability
        self.disk = disk.activate(disk.SimDisk(ctx, (), plan["bufsize"]))
        try:
            with world.Silent():
                self.ext = world.make_extraction(case)
                self.ext.extract()
                self.unext = world.make_extraction(case) if plan["unext"] else None
                if self.unext is not None and isinstance(self.unext.baseline, world.BaseFunction):
                    self.unext.setvars(quiet=True, baseline=self.ext.extracted.baseline.copy())
                self.stab = ps()
                self.stab.setppe(world.make_extraction(case))
                self.stab.run(plan["errs"])
        except (world.SrMiseError, ValueError) as e:
            raise SkipRun("not extracted: %r" % e)
        for e in (self.ext, self.stab.ppe):
            if not world.finite(e.extracted.model):
                raise SkipRun("not finite")
        if plan["edit"] is not None:
            self.edit(random.Random(plan["edit"]))
        self.names = {"ext": "e.srmise", "unext": "u.srmise", "stab": "s.dat", "pdf": "d.gr", "missing": "none.srmise"}
        x, y = world.synth(case)
        self.disk.put("d.gr", ("##### start data\n" + "".join("%r %r\n" % v for v in zip(x.tolist(), y.tolist()))).encode())
        self.save()

    def save(self):
        """Write the files and note what they and the objects hold."""
        ps = world.PeakStability
        with world.Silent():
            self.ext.write(self.disk.path("e.srmise"))
            if self.unext is not None:
                self.unext.write(self.disk.path("u.srmise"))
            self.stab.save(self.disk.path("s.dat"))
        self.good = {n: self.disk.get(n) for n in self.disk.names()}
        self.spoiled = set()
        self.models = [self.model(self.stab, i) for i in range(len(self.stab.results))]
        # As read from the files (C01, C12).
        with world.Silent():
            lext, lstab, lun = world.PDFPeakExtraction(), ps(), None
            lext.read(self.disk.path("e.srmise"))
            lstab.load(self.disk.path("s.dat"))
            if self.unext is not None:
                lun = world.PDFPeakExtraction()
                lun.read(self.disk.path("u.srmise"))
            self.loaded = {"ext": self.shown("ext", None, lext), "unext": None if lun is None else self.shown("unext", None, lun),
                           "stab": [self.model(lstab, i) for i in range(len(lstab.results))]}

    def edit(self, rng):
        """The user moves or drops a peak of the extracted model, or moves its baseline."""
        m = self.ext.extracted.model
        b = self.ext.extracted.baseline
        if b is not None and len(b.pars) and rng.random() < 0.5:
            b.pars[0] += 0.02
        elif len(m) and rng.random() < 0.4:
            del m[rng.randrange(len(m))]
        elif len(m):
            p = m[rng.randrange(len(m))]
            p.pars[0] += 0.05

    def model(self, stab, i):
        """The i-th result of the series, from what is stored for it and the data."""
        e, parts, bl, dr = stab.results[i]
        old = stab.current
        ppe = stab.ppe
        stab.setcurrent(i)
        mc = ppe.extracted
        s = Shown(parts.copy(), None if bl is None else bl.copy(), mc.r_cluster.copy(), mc.y_cluster.copy(), mc.error_cluster.copy(), ppe,
                  stab.results)
        stab.setcurrent(old)
        return s

    def shown(self, what, model=None, ppe=None):
        if what == "stab":
            return self.models[self.stab.current if model is None else model]
        ppe = ppe or (self.ext if what == "ext" else self.unext)
        if what == "ext":
            mc = ppe.extracted
            return Shown(mc.model.copy(), None if mc.baseline is None else mc.baseline.copy(), mc.r_cluster.copy(), mc.y_cluster.copy(),
                         mc.error_cluster.copy(), ppe)
        twin = world.make_extraction(self.plan["case"])
        if ppe is not self.unext:
            twin = world.PDFPeakExtraction()
            twin.read(self.disk.path("u.srmise"))
        twin.defaultvars()
        sl = twin.getrangeslice()
        bl = ppe.baseline
        return Shown(world.Peaks(p.copy() for p in ppe.initial_peaks or []), None if bl is None else bl.copy(), twin.x[sl], twin.y[sl],
                     np.asarray(twin.effective_dy)[sl], ppe)

    # --- figures

    def figure(self, fig, want, ip, kwds, info):
        """Compare what fig shows with what is wanted."""
        ctx = self.ctx
        check = lambda cond, kind, detail="": ctx.check(cond, kind, lambda: info(detail() if callable(detail) else detail))
        k = lambda name, default: kwds.get(name, default)
        s = k("scale", 1.0)
        r = want.r
        rt = 1e-9
        xlo, xhi = k("xlo", r[0]), k("xhi", r[-1])
        series = want.results is not None
        dgh = k("dg_height", 15.0 if series else 0.0)
        cmph = k("cmp_height", 15.0 if ip is not None else 7.5)
        axes = fig.get_axes()
        check(len(axes) == 1 + (dgh > 0) + (cmph > 0), "wrong-panels", lambda: "%d" % len(axes))
        data = axes[0]
        cmp_ = axes[1] if cmph > 0 else None
        dg = axes[1 + (cmph > 0)] if dgh > 0 else None
        dense = np.linspace(r[0], r[-1], 400)
        size = s * max(np.max(np.abs(want.y)), np.max(np.abs(want.value(dense))), 1e-3)
        size = max(size, s * max([np.max(np.abs(p.value(dense))) for p in want.parts] or [0]))
        for a in axes:
            check(np.allclose(a.get_xlim(), (xlo, xhi), atol=rt), "wrong-range", lambda: "%s, not %s" % (a.get_xlim(), (xlo, xhi)))
        dr = (r[-1] - r[0]) / len(r)
        high, low, reshigh = [], [], None
        # Observed.
        lines = [l for l in data.get_lines()]
        obs = [l for l in lines if l.get_marker() == "o"]
        check(len(obs) == (1 if k("show_observed", True) else 0), "observed-data-missing", lambda: "%d" % len(obs))
        for l in obs:
            x, y = xy(l)
            at = np.searchsorted(x, r[0] - rt)
            check(close(x[at:at + len(r)], r, 1e6 * rt), "observed-data-elsewhere", lambda: "%s..., not %s..." % (x[:3], r[:3]))
            check(x[0] <= max(r[0], xlo) + rt and x[0] <= xlo + 1.001 * dr + rt or xlo > r[0], "observed-data-short", lambda: "from %s, not %s" % (x[0], xlo))
            check(x[-1] >= xhi - 1.001 * dr - rt or xhi < r[-1], "observed-data-short", lambda: "to %s, not %s" % (x[-1], xhi))
            check(np.all(np.diff(x) > 0), "observed-data-disordered")
            # (Stored sampled data are rounded.)
            check(close(y[at:at + len(r)], want.y * s, 1e3 * size), "wrong-observed-data", lambda: "differ by %s" % np.max(np.abs(y[at:at + len(r)] - want.y * s)))
            own = np.asarray(resample(np.asarray(want.ppe.x), np.asarray(want.ppe.y), x)) * s
            check(close(y, own, size), "wrong-observed-data", lambda: "differ by %s from the PDF" % np.max(np.abs(y - own)))
            px, py = np.asarray(want.ppe.x), np.asarray(want.ppe.y)
            for u, v in zip(px, py):
                i = np.argmin(np.abs(x - u))
                if abs(x[i] - u) < 1e-9:
                    check(abs(y[i] - v * s) <= 1e-5 * size, "wrong-observed-data", lambda: "%s at %s, not %s" % (y[i], u, v * s))
            high.append(y.max())
            low.append(y.min())
        # Fit.
        fit = [l for l in lines if to_rgba(l.get_color()) == GREEN]
        check(len(fit) == (1 if k("show_fit", True) else 0), "fit-missing", lambda: "%d" % len(fit))
        for l in fit:
            x, y = xy(l)
            check(len(x) > 2 and abs(x[0] - r[0]) < rt and r[-1] - 1.001 * dr <= x[-1] <= r[-1] + dr, "fit-short", lambda: "%s to %s, not %s to %s" % (x[0], x[-1], r[0], r[-1]))
            check(close(y, want.value(x) * s, size), "wrong-fit", lambda: "differs by %s of %s" % (np.max(np.abs(y - want.value(x) * s)), size))
            high.append(y.max())
            low.append(y.min())
        # Peaks.
        fills = [c for c in data.collections if c.get_paths()]
        check(len(fills) == (len(want.parts) if k("fill_individual", True) else 0), "wrong-number-of-peaks", lambda: "%d, not %d" % (len(fills), len(want.parts)))
        left = list(want.parts)
        for c in fills:
            v = np.concatenate([p.vertices for p in c.get_paths()])
            found = None
            grid, at = np.unique(v[:, 0], return_inverse=True)
            base = (want.bl(grid) * s)[at]
            for p in left:
                top = base + (np.asarray(p.value(grid)) * s)[at]
                ok = (np.abs(v[:, 1] - base) <= 1e-6 * size) | (np.abs(v[:, 1] - top) <= 1e-6 * size)
                if ok.all() and abs(np.max(np.abs(v[:, 1] - base)) - np.max(np.abs(top - base))) <= 1e-6 * size:
                    found = p
                    break
            check(found is not None, "wrong-peak", lambda: "filled from %s to %s" % (v.min(0), v.max(0)))
            left = [p for p in left if p is not found]
        # Residual.
        res = [l for l in lines if to_rgba(l.get_color()) == RED]
        zero = [l for l in lines if to_rgba(l.get_color()) == BLACK and l.get_linestyle() == ":"]
        check(len(res) == len(zero) == (1 if k("show_residual", True) else 0), "residual-missing", lambda: "%d %d" % (len(res), len(zero)))
        for l, z in zip(res, zero):
            x, y = xy(l)
            base = xy(z)[1]
            true = (want.y - want.value(r)) * s
            m = k("mask_residual", False)
            if m and np.all(np.abs(true) > m - 1e-6 * size):
                continue  # all of it is hidden
            check(close(x, r, 1e6 * rt) and len(base) == 2 and base[0] == base[1], "residual-elsewhere", lambda: "%s..., zero at %s" % (x[:3], base))
            seen = np.isfinite(y)
            if m:
                keep = (np.abs(true) <= m) & (np.abs(np.abs(true) - m) > 1e-6 * size)
                check(not np.any(keep & ~seen) and not np.any(seen & (np.abs(true) > m + 1e-6 * size)), "wrong-mask")
            else:
                check(seen.all(), "residual-missing", lambda: "%d points" % (~seen).sum())
            check(close((y - base[0])[seen], true[seen], size), "wrong-residual", lambda: "differs by %s" % np.max(np.abs((y - base[0])[seen] - true[seen])))
            if seen.any():
                reshigh = np.max(y[seen])
                low.append(np.min(y[seen]))
        # All within the panel and apart from each other.
        ylo, yhi = data.get_ylim()
        if high and not k("mask_residual", False):
            eps = 1e-6 * (yhi - ylo)
            check(max(high) <= yhi - (dgh + cmph) / 100.0 * (yhi - ylo) + eps, "hidden-by-panels", lambda: "%s of %s" % (max(high), (ylo, yhi)))
            check(min(low) >= ylo - eps, "outside-the-axes", lambda: "%s of %s" % (min(low), (ylo, yhi)))
            if reshigh is not None and obs and fit:
                check(reshigh <= min(xy(l)[1].min() for l in obs + fit) + eps, "residual-overlaps", lambda: "%s" % reshigh)
        # Distances.
        if cmp_ is not None:
            self.distances(cmp_, [p["position"] for p in want.parts], GREEN, 1, check)
            if ip is not None:
                self.distances(cmp_, ip, BLUE, -1, check)
            else:
                check(not [l for l in cmp_.get_lines() if to_rgba(l.get_color()) == BLUE], "distances-from-nowhere")
        if dg is not None:
            got = [(a, b) for l in dg.get_lines() if l.get_marker() == "o" for a, b in zip(*xy(l))]
            lo = k("dgmin", None)
            hi = k("dgmax", None)
            true = []
            for e, parts, bl, d in want.results:
                if (lo is None or e >= lo - 1e-9) and (hi is None or e <= hi + 1e-9):
                    true += [(p["position"], e * s) for p in parts if r[0] <= p["position"] <= r[-1]]
            got, true = sorted(got), sorted(true)
            check(len(got) == len(true) and np.allclose(np.array(got), np.array(true), rtol=1e-7, atol=1e-9), "wrong-series",
                  lambda: "%s, not %s" % (got, true))
        # Annotations.
        texts = [t.get_text() for a in axes for t in a.texts]
        note = k("dgformatstr", r"$\delta$g=%f") % (np.mean(want.dy) * s)
        note = note.replace("-0.000000", "0.000000")
        shows = k("show_annotation", True) and cmph > 0
        if shows:
            check(note in texts, "wrong-annotation", lambda: "%s lacks %s" % (texts, note))
        else:
            check(note not in texts, "annotation-not-wanted", lambda: "%s" % texts)
        if "datalabel" in kwds:
            check(kwds["datalabel"] in texts, "label-missing", lambda: "%s" % texts)
        self.read += 1

    def distances(self, ax, positions, color, sign, check):
        ls = [l for l in ax.get_lines() if to_rgba(l.get_color()) == color]
        check(len(ls) == 1, "distances-missing", lambda: "%d" % len(ls))
        x, y = xy(ls[0])
        ok = np.isfinite(x)
        got = sorted(set(float("%.7g" % v) for v in x[ok]))
        true = sorted(set(float("%.7g" % v) for v in positions))
        check(len(got) == len(true) and np.allclose(got, true, rtol=1e-6), "wrong-distances", lambda: "%s, not %s" % (got, true))
        for v in positions:
            at = ok & (np.abs(x - v) <= 1e-6 * max(1, abs(v)))
            h = y[at]
            check(h.max() - h.min() > 0 and (h.max() > 0 if sign > 0 else h.min() < 0), "distance-not-drawn", lambda: "%s: %s" % (v, h))

    # --- operations

    def command(self, o, what):
        ctx, d = self.ctx, self.disk
        name = self.names[o["what"]]
        if o["what"] == "unext" and self.unext is None:
            return "skipped"
        argv = [[d.path(name)]]
        text = dist = None
        if "compare" in o:
            if o["compare"] == "missing":
                d.remove("compare.txt")
            else:
                text = DISTANCES[o["compare"]]
                d.put("compare.txt", text.encode())
                dist = distances_of(text)
            argv.append(["--compare", d.path("compare.txt")])
        if o["model"] is not None:
            argv.append(["--model", "%d" % o["model"]])
        out = fmt = None
        if o.get("output"):
            fmt = o["format"] or "eps"
            out = "out-%s.%s" % (o["output"], fmt)
            argv.append(["--output" if o["model"] is None else "-o", d.path(out)] + ([] if o["format"] is None else ["--format", fmt]))
        if o["show"]:
            argv.append(["--show"])
        random.Random(o["order"]).shuffle(argv)
        argv = ["srmiseplot"] + [w for g in argv for w in g]
        bad = name in self.spoiled or o["what"] in ("missing", "pdf")
        before = {n: d.get(n) for n in d.names()}
        drawn = list(plt.get_fignums())
        marker = plt.gcf()
        marker.clf()
        marker.text(0.5, 0.5, "before")
        faults = [dict(f) for f in o.get("faults") or []]
        d.arm(faults)
        since = len(d.handles)
        oldargv, sys.argv = sys.argv, argv
        so = world.Silent()
        err = None
        inj = instants.Injector(o.get("interrupt"), KeyboardInterrupt("simulated") if o.get("interrupt") is not None else None)
        try:
            with so:
                if o.get("interrupt") is not None:
                    with inj:
                        plotapp.main()
                else:
                    plotapp.main()
        except (Exception, KeyboardInterrupt, SystemExit) as e:
            err = e
        finally:
            sys.argv = oldargv
        hard = d.hard_fired()
        fired = list(d.firedlist)
        leaked = [n for n in d.still_open(since) if n != out]
        d.clear()
        printed = "".join(so.text)
        world.reset_levels()
        info = lambda extra: "%s: %s: %s" % (what(), " ".join(os.path.basename(a) for a in argv), extra)
        for n, v in before.items():
            if n != out:
                ctx.check(d.get(n) == v, "file-changed", lambda: info(n))
        ctx.check(set(d.names()) <= set(before) | {out}, "file-made", lambda: info(d.names()))
        ctx.check(not leaked or inj.fired, "file-left-open", lambda: info(leaked))
        if inj.fired:
            ctx.fault("interrupt-in-command")
            # (traceback.format_exc() of the error of a file goes on if the text of the error cannot be had.)
            ctx.check(isinstance(err, KeyboardInterrupt) or inj.fired.endswith("__str__"), "interrupt-swallowed", lambda: info("%r at %s" % (err, inj.fired)))
            return "interrupted"
        ctx.check(not isinstance(err, (KeyboardInterrupt, SimCrash, SystemExit)), "unexpected", lambda: info(repr(err)))
        refused = "is not a .srmise or PeakStability data file" in printed
        if o["show"] and err is None and not refused:
            ctx.probe("shown")
        readfault = any(f[0] == "read" or f[0] == "open" for f in hard)
        outfault = bool(hard) and any(f.get("match") == "out-" for f in faults)
        cmpfault = bool(hard) and any(f.get("match") == "compare" for f in faults)
        if bad:
            ctx.check(refused and err is None, "bad-file-not-reported", lambda: info("%r %s" % (err, printed[-200:])))
        if refused:
            ctx.check(bad or readfault and not outfault and not cmpfault, "good-file-refused", lambda: info(printed[-200:]))
            ctx.check(marker.texts and marker.texts[0].get_text() == "before" and len(marker.axes) == 0, "drawn-despite-refusal", lambda: info(""))
            ctx.check(out is None or d.get(out) == before.get(out), "output-despite-refusal", lambda: info(out))
            return "refused"
        nocmp = o.get("compare") == "missing"
        if nocmp:
            ctx.check(isinstance(err, OSError), "missing-distances-not-reported", lambda: info(repr(err)))
        if err is not None:
            ctx.check(isinstance(err, OSError) and (nocmp or hard) or outfault, "command-failed", lambda: info("%r, faults %s" % (err, fired)))
            if nocmp or not outfault and not (hard and out):
                ctx.check(out is None or d.get(out) == before.get(out), "output-despite-error", lambda: info(out))
            return "failed"
        ctx.check(not outfault, "lost-output-not-reported", lambda: info(fired))
        ctx.check(not cmpfault or o.get("compare") is None, "unread-distances-not-reported", lambda: info(fired))
        # What it shows.
        n = len(self.stab.results)
        m = o["model"]
        if m is not None and (o["what"] != "stab" or m >= n):
            ctx.check("Ignoring model" in printed, "ignored-model-not-reported", lambda: info(printed[-200:]))
            m = None
        else:
            ctx.check("Ignoring model" not in printed, "model-ignored", lambda: info(printed[-200:]))
        if text is not None and dist is None and text.strip():
            ctx.check("Could not read distances" in printed, "bad-distances-not-reported", lambda: info(printed[-200:]))
        if dist is not None:
            ctx.check("Could not read distances" not in printed, "good-distances-refused", lambda: info(printed[-200:]))
        fig = plt.gcf()
        want = self.loaded[o["what"]]
        if o["what"] == "stab":
            want = want[m or 0]
        self.figure(fig, want, dist, {}, info)
        if out:
            fault = image_fault(d.get(out), fmt)
            ctx.check(fault is None, "bad-output", lambda: info("%s: %s" % (out, fault)))
            if fmt == "svg":
                ctx.probe("svg")
        return "drawn"

    def make(self, o, what):
        ctx = self.ctx
        obj = {"ext": self.ext, "stab": self.stab, "unext": self.unext}[o["what"]]
        if obj is None:
            return "skipped"
        if o["what"] == "stab" and "current" in o:
            self.stab.setcurrent(o["current"] % len(self.stab.results))
        kwds = dict(o["kwds"])
        if o["what"] != "stab":
            kwds.pop("dg_height", None)
        want = self.shown(o["what"])
        ip = o["ip"]
        given = None if ip is None else np.array(ip) if o["array"] else list(ip)
        fig = None
        if kwds.get("figure"):
            fig = self.last if kwds["figure"] == "again" and self.last is not None else plt.figure()
            self.last = fig
            if kwds["figure"] == "other":
                # Another figure is the current one.
                last = plt.figure()
                last.text(0.5, 0.5, "before")
            kwds["figure"] = fig
        before = self.snap(o["what"])
        args = dict(kwds)
        err = None
        inj = instants.Injector(o.get("interrupt"), KeyboardInterrupt("simulated") if o.get("interrupt") is not None else None)
        try:
            with world.Silent():
                if o.get("interrupt") is not None:
                    with inj:
                        out = plotapp.makeplot(obj, given, **args)
                else:
                    out = plotapp.makeplot(obj, given, **args)
        except (Exception, KeyboardInterrupt) as e:
            err = e
        info = lambda extra: "%s: %s" % (what(), extra)
        changed = world.diff(before, self.snap(o["what"]))
        ctx.check(changed is None, "object-changed", lambda: info(changed))
        ctx.check(ip is None or list(given) == ip, "argument-changed", lambda: info(given))
        if inj.fired:
            ctx.fault("interrupt-in-makeplot")
            # (traceback.format_exc() of the error of a file goes on if the text of the error cannot be had.)
            ctx.check(isinstance(err, KeyboardInterrupt) or inj.fired.endswith("__str__"), "interrupt-swallowed", lambda: info("%r at %s" % (err, inj.fired)))
            return "interrupted"
        ctx.check(err is None, "plot-failed", lambda: info(repr(err)))
        if fig is not None:
            ctx.check(out["fig"] is fig, "wrong-figure", lambda: info("figure returned"))
            if o["kwds"]["figure"] == "other":
                ctx.check(not last.axes and len(last.texts) == 1, "drawn-into-another-figure", lambda: info("%s" % last.axes))
        self.figure(out["fig"], want, ip, kwds, info)
        return "drawn"

    def snap(self, what):
        """What a plot must not change: results and data of the object shown."""
        if what == "stab":
            return {"ext": world.snap_ext(self.stab.ppe), "results": world.snap_results(self.stab), "current": self.stab.current}
        d = world.snap_ext(self.ext if what == "ext" else self.unext)
        if what == "unext":
            # Variables not set get their defaults.
            d = {k: d[k] for k in ("x", "y", "dx", "dy", "extracted", "extraction_type", "class")}
            d["initial"] = world.snap_parts(self.unext.initial_peaks or [])
        return d

    def plot(self, o, what):
        """The plot method of an extraction: data, and the model joined or peak by peak."""
        ctx = self.ctx
        obj = {"ext": self.ext, "stab": self.stab.ppe, "unext": self.unext}[o["what"]]
        if obj is None:
            return "skipped"
        want = self.shown(o["what"])
        before = self.snap(o["what"])
        with world.Silent():
            obj.plot() if o["joined"] is None else obj.plot(joined=o["joined"])
        info = lambda extra: "%s: %s" % (what(), extra)
        changed = world.diff(before, self.snap(o["what"]))
        ctx.check(changed is None, "object-changed", lambda: info(changed))
        self.curves(want, o["joined"], info)
        return "drawn"

    def curves(self, want, joined, info):
        ctx = self.ctx
        size = max(np.max(np.abs(want.y)), np.max(np.abs(want.value(want.r))), 1e-3)
        curves = [xy(l) for l in plt.gca().get_lines()]
        true = [want.y]
        if joined:
            true.append(want.value(want.r))
        else:
            true += [want.bl(want.r) + np.asarray(p.value(want.r)) for p in want.parts]
        size = max([size] + [np.max(np.abs(t)) for t in true])
        ctx.check(len(curves) == len(true), "wrong-number-of-curves", lambda: info("%d, not %d" % (len(curves), len(true))))
        ctx.check(all(close(x, want.r, 1e-3) for x, y in curves), "curve-elsewhere", lambda: info(""))
        for t in true:
            i = [i for i, (x, y) in enumerate(curves) if close(y, t, size)]
            ctx.check(i, "wrong-curve", lambda: info("none of %d is near %s..." % (len(curves), t[:3])))
            curves.pop(i[0])
        self.read += 1

    def psplot(self, o, what):
        """The current result of a series."""
        ctx, s = self.ctx, self.stab
        if "current" in o:
            s.setcurrent(o["current"] % len(s.results))
        want = self.shown("stab")
        before = self.snap("stab")
        with world.Silent():
            s.plot()
        info = lambda extra: "%s: %s" % (what(), extra)
        changed = world.diff(before, self.snap("stab"))
        ctx.check(changed is None, "object-changed", lambda: info(changed))
        self.curves(want, False, info)
        self.title(s.current, info)
        return "drawn"

    def title(self, i, info):
        s = self.stab
        text = plt.gcf()._suptitle.get_text()
        e, parts = s.results[i][:2]
        head = "[%d/%d]" % (i + 1, len(s.results))
        body = "Uncertainty: %6.3f. Peaks: %i." % (e, len(parts))
        self.ctx.check(head in text and (body in text or self.plan["case"].get("scale")), "wrong-title", lambda: info("%r lacks %r or %r" % (text, head, body)))

    def series(self, o, what):
        ctx, s = self.ctx, self.stab
        before = self.snap("stab")
        with world.Silent():
            s.plotseries()
        info = lambda extra: "%s: %s" % (what(), extra)
        changed = world.diff(before, self.snap("stab"))
        ctx.check(changed is None, "object-changed", lambda: info(changed))
        got = sorted((a, b) for l in plt.gca().get_lines() for a, b in zip(*xy(l)))
        true = sorted((p["position"], e) for e, parts, bl, dr in s.results for p in parts)
        ctx.check(len(got) == len(true) and np.allclose(np.array(got), np.array(true), atol=1e-12), "wrong-series", lambda: info("%s, not %s" % (got, true)))
        self.read += 1
        return "drawn"

    def animate(self, o, what):
        """Every result asked for is shown in turn; afterwards the current one is as before."""
        ctx, s = self.ctx, self.stab
        rs = o["results"]
        rs = None if rs is None else [i % len(s.results) for i in rs]
        before = self.snap("stab")
        info = lambda extra: "%s: %s" % (what(), extra)
        seen = []
        real = type(s).plot

        def plot(*a, **k):
            real(s, *a, **k)
            seen.append(s.current)
            self.curves(self.models[s.current], False, info)
            self.title(s.current, info)

        s.plot = plot
        try:
            with world.Silent():
                s.animate() if rs is None else s.animate(results=rs)
        finally:
            del s.plot
        ctx.check(seen == (list(range(len(s.results))) if rs is None else rs), "wrong-animation", lambda: info("%s" % seen))
        changed = world.diff(before, self.snap("stab"))
        ctx.check(changed is None, "object-changed", lambda: info(changed))
        return "drawn"

    def change(self, o, what):
        """The user or a calculation changes what there is to show."""
        how, rng = o["how"], random.Random(o["seed"])
        un = o["what"] == "unext" and self.unext is not None
        if how == "edit" and un:
            m = self.unext.initial_peaks
            if m is not None and len(m):
                m[rng.randrange(len(m))].pars[0] += 0.05
        elif how == "edit" and o["what"] == "stab":
            r = self.stab.results[rng.randrange(len(self.stab.results))][1]
            if len(r):
                r[rng.randrange(len(r))].pars[0] += 0.05
            self.stab.setcurrent(self.stab.current)
        elif how == "edit":
            self.edit(rng)
        elif o["what"] == "stab":
            try:
                with world.Silent():
                    self.stab.run(o["errs"])
            except (world.SrMiseError, ValueError) as e:
                raise SkipRun("not extracted: %r" % e)
        else:
            try:
                with world.Silent():
                    if how == "cluster":
                        self.ext.extracted.fit(fitbaseline=True)
                    elif how != "fit":
                        self.ext.setvars(quiet=True, effective_dy=o["edy"])
                    self.ext.fit() if how == "fit" else how == "cluster" or self.ext.extract()
            except (world.SrMiseError, ValueError) as e:
                raise SkipRun("not fitted: %r" % e)
        for e in (self.ext, self.stab.ppe):
            if not world.finite(e.extracted.model):
                raise SkipRun("not finite")
        self.save()
        return how

    def damage(self, o, what):
        """A file loses its end, or the files are exchanged."""
        d = self.disk
        name = self.names["stab" if o["what"] == "stab" else "ext"]
        if o["how"] == "restore" or name in self.spoiled:
            d.put(name, self.good[name])
            self.spoiled.discard(name)
            return "restored"
        data = self.good[name]
        if o["how"] == "swap" or name == "s.dat":
            data = data[: int(0.95 * o["at"] * len(data))]
            if name != "s.dat":
                data = b"neither\n" + data[:10]
        else:
            # Without its title or data: no file of an extraction any more.
            data = data[: int(min(o["at"], 0.2) * 200)]
        d.put(name, data)
        self.ctx.fault("disk-damage-cut")
        self.spoiled.add(name)
        return "damaged"


def execute(plan, ctx):
    with matplotlib.rc_context():
        try:
            run = Run(plan, ctx)
            for i, o in enumerate(plan["ops"]):
                what = lambda: "operation %d %s" % (i, o["op"])
                out = getattr(run, o["op"])(o, what)
                ctx.log(i, o["op"], o["what"], out, run.read)
                ctx.state(o["op"], o["what"], sorted(o.get("kwds", {})), o.get("model"), o.get("format"), o.get("compare"), out)
                ctx.probe(o["op"] + " " + out)
            if run.read >= 2:
                ctx.nontrivial = True
        finally:
            disk.deactivate()
            plt.close("all")
