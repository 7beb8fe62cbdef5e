"""The simulated process around diffpy.srmise.

Importing this module installs the permanent seams (optimizer, open(), clock) and then
imports the code under test from REPO/src.  While no simulation object is active every
seam passes calls through unchanged.
"""
import os
import sys

os.environ.setdefault("MPLBACKEND", "Agg")

from sim.core import REPO  # noqa: E402

SRC = os.path.join(REPO, "src")
sys.path.insert(0, SRC)

from sim import disk as _disk  # noqa: E402  installs the open() seam

_disk.install()

import numpy as np  # noqa: E402

from sim import optim as _optim  # noqa: E402  installs the leastsq seam

_optim.install()

import logging  # noqa: E402
import random  # noqa: E402
import time  # noqa: E402
import warnings  # noqa: E402

import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402

import diffpy.srmise  # noqa: E402
from diffpy.srmise import srmiselog  # noqa: E402
from diffpy.srmise.baselines.fromsequence import FromSequence  # noqa: E402
from diffpy.srmise.baselines.nanospherical import NanoSpherical  # noqa: E402
from diffpy.srmise.baselines.polynomial import Polynomial  # noqa: E402
from diffpy.srmise.basefunction import BaseFunction  # noqa: E402
from diffpy.srmise.modelcluster import ModelCluster, ModelCovariance  # noqa: E402
from diffpy.srmise.modelevaluators.aic import AIC  # noqa: E402
from diffpy.srmise.modelevaluators.aicc import AICc  # noqa: E402
from diffpy.srmise.modelparts import ModelPart, ModelParts  # noqa: E402
from diffpy.srmise.multimodelselection import MultimodelSelection  # noqa: E402
import diffpy.srmise.pdfdataset as pdfdataset_module  # noqa: E402
from diffpy.srmise.pdfdataset import PDFDataFormatError, PDFDataSet  # noqa: E402
from diffpy.srmise.peakstability import PeakStability  # noqa: E402
from diffpy.srmise.srmiseerrors import (  # noqa: E402
    SrMiseDataFormatError,
    SrMiseEstimationError,
    SrMiseError,
    SrMiseFileError,
    SrMiseStaticOwnerError,
    SrMiseUndefinedCovarianceError,
)
from diffpy.srmise.pdfpeakextraction import PDFPeakExtraction  # noqa: E402
from diffpy.srmise.peakextraction import PeakExtraction  # noqa: E402
from diffpy.srmise.peaks.base import Peak, Peaks  # noqa: E402
from diffpy.srmise.peaks.gaussian import Gaussian  # noqa: E402
from diffpy.srmise.peaks.gaussianoverr import GaussianOverR  # noqa: E402
from diffpy.srmise.peaks.terminationripples import TerminationRipples  # noqa: E402

if not os.path.realpath(diffpy.srmise.__file__).startswith(os.path.realpath(SRC) + os.sep):
    raise ImportError("diffpy.srmise comes from %s, not from %s" % (diffpy.srmise.__file__, SRC))

EVALUATORS = {"AIC": AIC, "AICc": AICc}

# --- clock ------------------------------------------------------------------


class SimClock(object):
    """Simulated wall clock: only moved by the simulation, in any direction."""

    def __init__(self):
        self.now = 1.7e9
        self.elapsed = 0.0
        self.step = 0.0  # the clock moves by this at every look at it

    def look(self):
        if self.step:
            self.advance(self.step)
        return self.now

    def advance(self, dt):
        self.now += dt
        self.elapsed += abs(dt)

    def jump(self, to):
        self.now = to


clock = SimClock()
_real_time = {k: getattr(time, k) for k in ("time", "ctime", "sleep", "localtime", "gmtime")}


def _ctime(secs=None):
    return _real_time["ctime"](clock.look() if secs is None else secs)


def _time():
    return clock.look()


def _sleep(dt):
    clock.advance(dt)


def _localtime(secs=None):
    return _real_time["localtime"](clock.look() if secs is None else secs)


def _gmtime(secs=None):
    return _real_time["gmtime"](clock.look() if secs is None else secs)


# time.sleep and time.time of other modules (subprocess, selectors) bound earlier stay real;
# the patched names are only in force while a run executes.
def _install_clock():
    time.ctime, time.time, time.sleep = _ctime, _time, _sleep
    time.localtime, time.gmtime = _localtime, _gmtime


_print0 = np.get_printoptions()
_err0 = np.geterr()
_errcall0 = np.geterrcall()
_cwd0 = os.getcwd()


class _Null(object):
    def write(self, s):
        return len(s)

    def flush(self):
        pass


def reset_levels():
    """Log and plot as at the start of a run."""
    srmiselog.ch.setLevel(logging.ERROR)
    srmiselog.logger.setLevel(logging.ERROR)
    srmiselog.liveplotting(False, False)


def reset_process():
    """Give the process the same initial state whatever was done in it before."""
    _disk.deactivate()
    _optim.deactivate()
    logger = logging.getLogger("diffpy.srmise")
    for h in list(logger.handlers):
        if h is not srmiselog.ch:
            logger.removeHandler(h)
            try:
                h.close()
            except Exception:
                pass
    if srmiselog.ch not in logger.handlers:
        logger.addHandler(srmiselog.ch)
    srmiselog.fh = None
    srmiselog.ch.setStream(_Null())
    srmiselog.ch.setLevel(logging.ERROR)
    logger.setLevel(logging.ERROR)
    logging.raiseExceptions = False
    srmiselog.settracer()
    srmiselog.liveplotting(False, False)
    clock.__init__()
    _install_clock()
    np.random.seed(0)
    random.seed(0)
    np.set_printoptions(**_print0)
    np.seterr(**_err0)
    np.seterrcall(_errcall0)
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    os.environ["LOGNAME"] = "sim"
    plt.close("all")
    plt.ioff()
    os.chdir(_cwd0)


# --- cases: JSON description of data and extraction variables ---------------


def synth(case):
    """x, y of a case, by formulas of our own."""
    n = case["n"]
    x = case["x0"] + case["dx"] * np.arange(n)
    x = np.array([float("%.6g" % v) for v in x]) if case.get("round") else x
    y = np.zeros(n)
    for kind, pos, fwhm, area in case["peaks"]:
        s = fwhm / (2 * np.sqrt(2 * np.log(2)))
        g = area / (s * np.sqrt(2 * np.pi)) * np.exp(-((x - pos) ** 2) / (2 * s * s))
        y += g / np.where(np.abs(x) > 1e-9, x, 1e-9) if kind == "GaussianOverR" else g
    b = case.get("background", [0.0, 0.0])
    y += b[0] * x + b[1]
    if case.get("noise"):
        rs = np.random.RandomState(case["nseed"])
        y += case["noise"] * rs.standard_normal(n)
    return x, y


def make_pf(spec, made=None):
    """Peak function from [name, args...]; TerminationRipples take another spec."""
    if spec[0] == "Gaussian":
        return Gaussian(spec[1])
    if spec[0] == "GaussianOverR":
        return GaussianOverR(spec[1])
    if spec[0] == "TerminationRipples":
        base = spec[1]
        base = made[base] if isinstance(base, int) else make_pf(base)
        return TerminationRipples(base, spec[2])
    raise ValueError(spec)


def make_pfs(specs):
    made = []
    for s in specs:
        made.append(make_pf(s, made))
    return made


def in_order(pfs, order):
    return list(pfs) if order is None else [pfs[i % len(pfs)] for i in order]


def make_baseline(spec):
    """Baseline or BaselineFunction from its description."""
    if spec is None:
        return None
    kind = spec["kind"]
    if kind == "poly":
        f = Polynomial(degree=spec["degree"])
    elif kind == "nano":
        f = NanoSpherical()
    elif kind == "seq":
        f = FromSequence(list(spec["x"]), list(spec["y"]))
    else:
        raise ValueError(kind)
    if spec.get("pars") is None:
        return f
    return f.actualize(
        list(spec["pars"]),
        "internal",
        free=spec.get("free"),
        removable=spec.get("removable", False),
        static_owner=spec.get("static", False),
    )


def make_peaks(specs, pfs):
    """Peaks from [[pf index, pos, fwhm, area, free, removable, static], ...]."""
    out = Peaks()
    for i, pos, fwhm, area, free, removable, static in specs:
        out.append(
            pfs[i].actualize([pos, fwhm, area], "pwa", free=free, removable=removable, static_owner=static)
        )
    return out


def case_vars(case, pfs=None):
    """Extraction variables of a case; unset ones are left out."""
    pfs = make_pfs(case["pf"]) if pfs is None else pfs
    kw = {"pf": in_order(pfs, case.get("pforder"))}
    if case.get("baseline") is not None:
        kw["baseline"] = make_baseline(case["baseline"])
    if case.get("cres") is not None:
        kw["cres"] = case["cres"]
    if case.get("rng") is not None:
        kw["rng"] = list(case["rng"])
    if case.get("em") is not None:
        kw["error_method"] = EVALUATORS[case["em"]]
    if case.get("edy") is not None:
        kw["effective_dy"] = case["edy"]
    if case.get("initial"):
        kw["initial_peaks"] = make_peaks(case["initial"], pfs)
    if case["cls"] == "PDF":
        for k in ("qmax", "nyquist", "supersample", "scale"):
            if case.get(k) is not None:
                kw[k] = case[k]
    return kw


def make_extraction(case, setvars=True, pfs=None):
    ext = PDFPeakExtraction() if case["cls"] == "PDF" else PeakExtraction()
    x, y = synth(case)
    dy = None if case.get("dy") is None else case["dy"] * np.ones(len(x))
    ext.setdata(x, y, None, dy)
    if setvars:
        ext.setvars(quiet=True, **case_vars(case, pfs))
    return ext


def do_extract(ext):
    return ext.extract() if isinstance(ext, PDFPeakExtraction) else ext.extract_single()


def do_fit(ext):
    return ext.fit() if isinstance(ext, PDFPeakExtraction) else ext.fit_single()


def r3(v):
    return float("%.4g" % v)


def gen_case(rng, size="small", cls=None, want=None):
    """Random case. size: tiny (fits only or very small extractions), small, medium."""
    want = want or {}
    cls = cls or rng.choice(["PE", "PE", "PDF"])
    n = {"tiny": (18, 34), "small": (28, 52), "medium": (60, 130)}[size]
    n = rng.randint(*n)
    x0 = r3(rng.uniform(0.6, 3.0))
    dx = r3(rng.choice([0.05, 0.08, 0.1]))
    span = dx * (n - 1)
    npk = want.get("npeaks") or rng.choice([3, 4, 5, 6, 8] if size == "medium" else [1, 1, 2, 2, 3])
    pfkind = rng.choice(["Gaussian", "GaussianOverR"])
    peaks = []
    for i in range(npk):
        pos = x0 + span * (i + 0.5 + rng.uniform(-0.2, 0.2)) / npk
        fwhm = rng.uniform(3.5, 8) * dx
        height = rng.uniform(1.0, 6.0)
        area = height * fwhm * 1.0645 * (pos if pfkind == "GaussianOverR" else 1.0)
        peaks.append([pfkind, r3(pos), r3(fwhm), r3(area)])
    case = {
        "cls": cls,
        "x0": x0,
        "dx": dx,
        "n": n,
        "peaks": peaks,
        "noise": r3(rng.choice([0.0, 0.02, 0.05, 0.15])),
        "nseed": rng.randrange(10**6),
        "pf": [[pfkind, r3(max(0.7, 9 * dx))]],
        "edy": r3(rng.choice([0.1, 0.2, 0.5])),
        "cres": r3(rng.choice([2, 3, 4]) * dx),
        "em": rng.choice([None, "AIC", "AICc"]),
    }
    if rng.random() < 0.25:
        other = "Gaussian" if pfkind == "GaussianOverR" else "GaussianOverR"
        case["pf"].append([rng.choice([pfkind, other]), r3(rng.uniform(0.5, 1.5))])
    if rng.random() < 0.3:
        case["dy"] = r3(rng.choice([0.1, 0.3]))
        if rng.random() < 0.5:
            case["edy"] = None
    if rng.random() < 0.3:
        lo = x0 + rng.uniform(0.0, 0.2) * span
        hi = x0 + rng.uniform(0.8, 1.0) * span
        case["rng"] = [rng.choice([None, r3(lo)]), rng.choice([None, r3(hi)])]
    case["baseline"] = gen_baseline(rng, case)
    if rng.random() < want.get("p_initial", 0.35):
        case["initial"] = gen_initial(rng, case)
    if cls == "PDF":
        qmax = rng.choice([0.0, 0.0, r3(np.pi / (dx * rng.uniform(0.85, 1.6)))])
        case["qmax"] = qmax
        if rng.random() < 0.5:
            case["nyquist"] = rng.random() < 0.5
        if rng.random() < 0.7:
            case["supersample"] = rng.choice([1.0, 1.5, 2.0])
        else:
            case["supersample"] = 1.0
        if rng.random() < 0.2:
            case["scale"] = rng.random() < 0.5
    return case


def gen_baseline(rng, case):
    """Add a background to the case and return the description of a baseline for it."""
    t = rng.random()
    x0, span = case["x0"], case["dx"] * (case["n"] - 1)
    if t < 0.25:
        return None
    if t < 0.45:
        a, b = r3(rng.uniform(-0.4, 0.1)), r3(rng.uniform(-0.5, 0.5))
        case["background"] = [a, b]
        k = rng.random()
        if k < 0.3:
            return {"kind": "poly", "degree": 1, "pars": None}
        return {
            "kind": "poly",
            "degree": 1,
            "pars": [a, b],
            "free": [rng.random() < 0.7, rng.random() < 0.7],
            "static": rng.random() < 0.2,
        }
    if t < 0.6:
        b = r3(rng.uniform(-1, 1))
        case["background"] = [0.0, b]
        if rng.random() < 0.3:
            return {"kind": "poly", "degree": 0, "pars": None}
        return {"kind": "poly", "degree": 0, "pars": [b], "free": [rng.random() < 0.6]}
    if t < 0.7:
        b = r3(rng.uniform(-0.5, 0.5))
        case["background"] = [0.0, b]
        return {"kind": "poly", "degree": 2, "pars": [0.0, 0.0, b], "free": [False, rng.random() < 0.5, True]}
    if t < 0.8:
        return {"kind": "poly", "degree": -1, "pars": []}
    if t < 0.9:
        return {
            "kind": "nano",
            "pars": [r3(rng.uniform(-0.2, -0.01)), r3(x0 + span * rng.uniform(1.2, 2.0))],
            "free": [rng.random() < 0.5, False],
        }
    a, b = r3(rng.uniform(-0.3, 0.0)), r3(rng.uniform(-0.3, 0.3))
    case["background"] = [a, b]
    xs = [r3(x0 - 0.2 + (span + 0.4) * i / 5.0) for i in range(6)]
    return {"kind": "seq", "x": xs, "y": [r3(a * v + b) for v in xs], "pars": []}


def gen_initial(rng, case):
    out = []
    for kind, pos, fwhm, area in case["peaks"]:
        if rng.random() < 0.6:
            out.append(
                [
                    rng.randrange(len(case["pf"])),
                    r3(pos + rng.uniform(-0.5, 0.5) * fwhm),
                    r3(min(fwhm * rng.uniform(0.8, 1.2), 0.9 * case["pf"][0][1])),
                    r3(area * rng.uniform(0.7, 1.2)),
                    [rng.random() < 0.8 for _ in range(3)],
                    rng.random() < 0.7,
                    rng.random() < 0.3,
                ]
            )
    # widths must not exceed the maximum width of the function used
    for p in out:
        p[2] = r3(min(p[2], 0.9 * case["pf"][p[0]][1]))
    return sorted(out, key=lambda p: p[1])


# --- snapshots --------------------------------------------------------------

PROBE = np.linspace(0.5, 9.5, 13)


def _plain(v):
    """JSON-like deep copy of a value with Python types only."""
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, np.ndarray):
        return [_plain(e) for e in v.tolist()]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [_plain(e) for e in v]
    if isinstance(v, slice):
        return ["slice", _plain(v.start), _plain(v.stop), 1 if v.step is None else _plain(v.step)]
    if isinstance(v, dict):
        return {str(k): _plain(e) for k, e in v.items()}
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, Peaks):
        return [_plain(e) for e in v]
    return repr(v)


_fs_cache = {}


def fsig(f):
    """Signature of a function: its type, number of parameters, base and values."""
    if f is None:
        return None
    pars = {
        "Gaussian": [[4.0, 0.3, 1.5], [6.0, 0.15, 2.0]],
        "GaussianOverR": [[4.0, 0.3, 1.5], [6.0, 0.15, 2.0]],
        "TerminationRipples": [[4.0, 0.3, 1.5]],
        "NanoSpherical": [[1.5, 7.0]],
    }
    name = type(f).__name__
    if name in pars:
        plist = pars[name]
    else:
        plist = [[0.5 + 0.25 * i for i in range(f.npars)]]
    vals = []
    for p in plist:
        part = f.actualize(np.array(p, dtype=float), "internal")
        vals.append([float(v) for v in np.asarray(part.value(PROBE.copy()))])
    return {"type": name, "npars": int(f.npars), "base": fsig(f.base), "values": vals}


class Names(object):
    """Numbers functions in the order in which they are met, by identity."""

    def __init__(self, with_values=True):
        self.ids = {}
        self.keep = []
        self.sigs = []
        self.with_values = with_values

    def __call__(self, f):
        if f is None:
            return None
        if id(f) not in self.ids:
            self.ids[id(f)] = len(self.keep)
            self.keep.append(f)
            self.sigs.append(fsig(f) if self.with_values else type(f).__name__)
            if f.base is not None:
                self(f.base)
        return self.ids[id(f)]


def snap_part(p, names):
    if p is None:
        return None
    return {
        "f": names(p.owner()),
        "pars": [float(v) for v in p.pars],
        "free": [bool(v) for v in p.free],
        "removable": bool(p.removable),
        "static": bool(p.static_owner),
    }


def snap_parts(parts, names=None):
    if parts is None:
        return None
    names = names or Names(False)
    return [snap_part(p, names) for p in parts]


def snap_mc(mc, names=None, data=True):
    """Snapshot of a ModelCluster."""
    if mc is None:
        return None
    own = names is None
    names = names or Names()
    d = {
        "peak_funcs": None if mc.peak_funcs is None else [names(f) for f in mc.peak_funcs],
        "model": snap_parts(mc.model, names),
        "baseline": snap_part(mc.baseline, names),
        "slice": _plain(mc.slice),
        "error_method": _plain(mc.error_method),
    }
    if data:
        d.update(r=_plain(mc.r_data), y=_plain(mc.y_data), dy=_plain(mc.y_error))
    if own:
        d["functions"] = names.sigs
    return d


PDF_VARS = ("filename", "nyquist", "qmax", "qmax_reportedbypdf", "qmax_fromdata", "scale", "supersample")


def snap_ext(ext, names=None, functions=True):
    """Snapshot of a peak extraction."""
    own = names is None
    names = names or Names(functions)
    d = {"class": type(ext).__name__}
    for k in ("x", "y", "dx", "dy", "effective_dy", "cres", "error_method"):
        d[k] = _plain(getattr(ext, k))
    d["rng"] = None if ext.rng is None else _plain(list(ext.rng))
    d["pf"] = None if ext.pf is None else [names(f) for f in ext.pf]
    d["initial_peaks"] = snap_parts(ext.initial_peaks, names)
    if ext.baseline is None:
        d["baseline"] = None
    elif isinstance(ext.baseline, BaseFunction):
        d["baseline"] = {"function": names(ext.baseline)}
    else:
        d["baseline"] = snap_part(ext.baseline, names)
    d["extraction_type"] = _plain(ext.extraction_type)
    d["extracted"] = snap_mc(ext.extracted, names)
    if isinstance(ext, PDFPeakExtraction):
        for k in PDF_VARS:
            d[k] = _plain(getattr(ext, k))
    if own:
        d["functions"] = names.sigs
    return d


def snap_cov(cov):
    """Snapshot of a ModelCovariance."""
    if cov is None:
        return None
    return {
        "cov": None if cov.cov is None else _plain(np.asarray(cov.cov)),
        "model": snap_parts(cov.model, Names(False)),
        "str": str(cov),
    }


def cov_fault(cov):
    """What is wrong within a covariance, or None."""
    if cov.cov is None:
        return None
    m = np.asarray(cov.cov, dtype=float)
    n = sum(len(p.pars) for p in cov.model)
    if m.shape != (n, n):
        return "shape %s for %d parameters" % (m.shape, n)
    if not np.isfinite(m).all():
        return None  # of a model which could not be evaluated
    if not np.allclose(m, m.T, rtol=1e-6, atol=1e-9 * np.max(np.abs(np.nan_to_num(m)), initial=0), equal_nan=True):
        return "not symmetric"
    k, strong = 0, set()
    for i, p in enumerate(cov.model):
        for j in range(len(p.pars)):
            if cov.getvalue((i, j)) != p.pars[j] or cov.getvalue(k) != p.pars[j]:
                return "value of parameter %d of part %d is %s, not %s" % (j, i, cov.getvalue((i, j)), p.pars[j])
            if not p.free[j] and (m[k].any() or m[:, k].any()):
                return "fixed parameter %d of part %d varies" % (j, i)
            sd = np.sqrt(m[k, k])
            if not np.isclose(cov.getuncertainty((i, j)), sd, rtol=1e-9, equal_nan=True) or cov.get(k)[0] != p.pars[j]:
                return "uncertainty of parameter %d of part %d is %s, not %s" % (j, i, cov.getuncertainty((i, j)), sd)
            for q in range(n):
                den = sd * np.sqrt(m[q, q])
                want = 0.0 if m[k, k] == 0 or m[q, q] == 0 else m[k, q] / den
                got = cov.getcorrelation(k, q)
                if not np.isclose(got, want, rtol=1e-9, atol=1e-12, equal_nan=True):
                    return "correlation of %d and %d is %s, not %s" % (k, q, got, want)
                if q > k and want and abs(want) > 0.8 * (1 + 1e-9):
                    strong.add((k, q))
            k += 1
    pairs = set((cov.pmap[a], cov.pmap[b]) for a, b, c in cov.correlationwarning())
    if not strong <= pairs:
        return "correlations %s reported, not %s" % (sorted(pairs), sorted(strong))
    return None


def result(ext):
    """What an extraction produced: model, baseline and type."""
    names = Names()
    return {
        "type": _plain(ext.extraction_type),
        "extracted": snap_mc(ext.extracted, names),
        "functions": names.sigs,
    }


def snap_results(ps, names=None):
    """Stored results of a PeakStability or MultimodelSelection."""
    own = names is None
    names = names or Names()
    out = []
    for r in ps.results:
        out.append([_plain(r[0]), snap_parts(r[1], names), snap_part(r[2], names), _plain(r[3])])
    d = {"results": out}
    if own:
        d["functions"] = names.sigs
    return d


def snap_pdf(d):
    """Snapshot of a PDFDataSet."""
    return {k: _plain(v) for k, v in sorted(d.__dict__.items())}


def snap_trace(t):
    return {
        "mc": snap_mc(t["mc"]),
        "clusters": _plain(t["clusters"]),
        "recursion": _plain(t["recursion"]),
        "counter": _plain(t["counter"]),
    }


class Silent(object):
    """Standard output and error go nowhere (or to a list)."""

    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(str(s))
        return len(s)

    def flush(self):
        pass

    def __enter__(self):
        self._old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self._old
        return False


def diff(a, b, rel=0.0, abs_=0.0, path=""):
    """First difference between two snapshots, or None."""
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a is b else "%s: %r != %r" % (path, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return None
        if rel and abs(a - b) <= rel * max(abs(a), abs(b)) + abs_:
            return None
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s: only one has %r" % (path, k)
            d = diff(a[k], b[k], rel, abs_, path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: lengths %d != %d" % (path, len(a), len(b))
        for i, (u, v) in enumerate(zip(a, b)):
            d = diff(u, v, rel, abs_, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %.300r != %.300r" % (path, a, b)


SAMPLED = ("x", "y", "dx", "dy", "effective_dy", "cres", "r")


def diff_saved(a, b):
    """Difference between a saved and a loaded snapshot: sampled numbers have six digits."""

    def split(s, top=True):
        exact, sampled = {}, {}
        for k, v in s.items():
            if k in SAMPLED and not isinstance(v, (dict, str)):
                sampled[k] = v
            else:
                exact[k] = v
        return exact, sampled

    ea, sa = split(a)
    eb, sb = split(b)
    xa, xb = ea.pop("extracted", None), eb.pop("extracted", None)
    d = diff(ea, eb)
    if d:
        return d
    d = diff(sa, sb, rel=6e-6)
    if d:
        return d
    if xa is None or xb is None:
        return diff(xa, xb, path=".extracted")
    e1, s1 = split(xa)
    e2, s2 = split(xb)
    return diff(e1, e2, path=".extracted") or diff(s1, s2, rel=6e-6, path=".extracted")


HEADERS = ("History written:", "Summary written:", "produced by ")


def body(text):
    """Content of a saved file without the header lines giving time and user."""
    return "\n".join(line for line in text.split("\n") if not line.startswith(HEADERS))


def finite(parts):
    return all(np.isfinite(np.asarray(p.pars, dtype=float)).all() for p in parts)


def sorted_positions(parts):
    pos = [float(p["position"]) for p in parts]
    return all(pos[i] <= pos[i + 1] for i in range(len(pos) - 1))
