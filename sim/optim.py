"""Optimizer seam: every call of scipy.optimize.leastsq passes through here.

Faults are decided per optimizer call (counted from 0 within a run):

    {"call": n, "kind": KIND, ...}

    raise    the call raises `exc` at once (out of memory, LinAlgError ...)
    eval     the residual function raises `exc` at its k-th evaluation of the call
    jac      the Jacobian function raises `exc` at its k-th evaluation
    maxfev   the real optimizer is stopped after `k` evaluations (ier 5)
    ier      real solution, but reported as failed with code `k`
    singular real solution, covariance reported singular (None)
    blowup   perturbed parameters reported as converged
    nanres   the residual is not a number from its k-th to its (k+m)-th evaluation (overflow)
    nan      a solution containing NaN is reported as converged (not in the default mix: MINPACK
             only returns points it evaluated, and the code refuses to evaluate NaN)
    stop     KeyboardInterrupt (or `exc`) at the k-th evaluation
"""
import numpy as np
import scipy.optimize
import scipy.optimize._minpack_py as _mp

_real = _mp.leastsq

EXCS = {
    "ValueError": ValueError,
    "LinAlgError": np.linalg.LinAlgError,
    "FloatingPointError": FloatingPointError,
    "MemoryError": MemoryError,
    "TypeError": TypeError,
    "NotImplementedError": NotImplementedError,
    "ZeroDivisionError": ZeroDivisionError,
    "RuntimeError": RuntimeError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
}

OPT = None


def leastsq(*args, **kwds):
    opt = OPT
    if opt is None:
        return _real(*args, **kwds)
    return opt.call(args, kwds)


def install():
    leastsq.__doc__ = _real.__doc__
    for m in (scipy.optimize, _mp):
        m.leastsq = leastsq
    try:
        import scipy.optimize.minpack as old

        old.leastsq = leastsq
    except Exception:
        pass


def activate(opt):
    global OPT
    OPT = opt
    return opt


def deactivate():
    global OPT
    OPT = None


class Optimizer(object):
    """Counts calls and applies faults to them."""

    def __init__(self, ctx, faults=(), observe=None):
        self.ctx = ctx
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f["call"], f)
        self.every = None  # fault applied to every call, if any
        self.calls = 0
        self.evals = 0
        self.enabled = True
        self.fired = []
        self.observe = observe  # called before each call with the start parameters
        self.outcomes = []  # of every call: the exception's name or ier, and whether singular

    def start_op(self, faults):
        """Address faults relative to the next call; those with "every" apply from there on."""
        self.faults = {}
        self.from_ = None
        for f in faults:
            if f.get("every"):
                self.from_ = (self.calls + f["call"], f)
            else:
                self.faults.setdefault(self.calls + f["call"], f)
        self.outcomes = []

    from_ = None

    def call(self, args, kwds):
        try:
            out = self._call(args, kwds)
        except BaseException as e:
            self.outcomes.append((type(e).__name__, None))
            raise
        full = len(out) > 2
        self.outcomes.append((int(out[-1]), full and out[1] is None))
        return out

    def failed(self):
        """Whether the last call since start_op failed."""
        return bool(self.outcomes) and self.outcomes[-1][0] not in (1, 2, 3, 4)

    def _call(self, args, kwds):
        n = self.calls
        self.calls += 1
        args = list(args)
        func = args[0] if args else kwds.get("func")
        x0 = args[1] if len(args) > 1 else kwds.get("x0")
        fault = None
        if self.enabled:
            fault = self.faults.get(n)
            if fault is None:
                fault = self.every
            if fault is None and self.from_ is not None and n >= self.from_[0]:
                fault = self.from_[1]
        if self.observe is not None:
            self.observe(n, x0, fault)
        if fault is None:
            return self._count(func, args, kwds, None)
        kind = fault["kind"]
        exc = EXCS[fault.get("exc", "ValueError")]
        if kind == "raise":
            self._fired(n, fault)
            raise exc("simulated optimizer failure")
        if kind in ("eval", "stop", "nanres"):
            return self._count(func, args, kwds, fault, exc)
        if kind == "jac":
            dfun = kwds.get("Dfun")
            if dfun is None:
                return self._count(func, args, kwds, fault, exc)
            state = {"n": 0}

            def bad(*a, **k):
                state["n"] += 1
                if state["n"] > fault.get("k", 0):
                    self._fired(n, fault)
                    raise exc("simulated failure of the Jacobian")
                return dfun(*a, **k)

            return _real(*args, **dict(kwds, Dfun=bad))
        if kind == "maxfev":
            out = _real(*args, **dict(kwds, maxfev=max(1, fault.get("k", 3))))
            if out[-1] not in (1, 2, 3, 4):
                self._fired(n, fault)
            return out
        out = list(_real(*args, **kwds))
        self._fired(n, fault)
        if kind == "ier":
            out[-1] = fault.get("k", 5)
            if len(out) > 2:
                out[-2] = "simulated: not converged"
        elif kind == "singular":
            if len(out) > 2:
                out[1] = None
        elif kind == "blowup":
            rs = np.random.RandomState(fault.get("seed", 0))
            v = np.array(out[0], dtype=float, copy=True, ndmin=1)
            v = v * (1 + fault.get("amount", 1.0) * rs.standard_normal(v.shape)) + fault.get("shift", 0.0)
            out[0] = v
            out[-1] = 1
        elif kind == "nan":
            v = np.array(out[0], dtype=float, copy=True, ndmin=1)
            v[fault.get("k", 0) % len(v)] = np.nan
            out[0] = v
            out[-1] = 1
        else:
            raise RuntimeError("unknown optimizer fault %r" % kind)
        return tuple(out)

    def _count(self, func, args, kwds, fault, exc=None):
        """Run the real optimizer, counting evaluations and failing the k-th one."""
        state = {"n": 0}
        n = self.calls - 1

        def counted(*a, **k):
            state["n"] += 1
            self.evals += 1
            if fault is not None and state["n"] > fault.get("k", 0):
                if fault["kind"] == "nanres":
                    v = func(*a, **k)
                    if state["n"] <= fault.get("k", 0) + fault.get("m", 1):
                        self._fired(n, fault)
                        v = v * np.nan
                    return v
                self._fired(n, fault)
                raise exc("simulated failure of an evaluation")
            return func(*a, **k)

        if args:
            args = [counted] + args[1:]
            return _real(*args, **kwds)
        return _real(**dict(kwds, func=counted))

    def _fired(self, n, fault):
        self.fired.append([n, fault["kind"]])
        name = "opt-" + fault["kind"]
        if fault["kind"] in ("raise", "eval", "jac", "stop"):
            name += "-" + fault.get("exc", "ValueError")
        self.ctx.fault(name)


def gen_fault(rng, call, kinds=None):
    kinds = kinds or ["raise", "eval", "eval", "jac", "maxfev", "ier", "singular", "blowup", "blowup", "nanres"]
    kind = rng.choice(kinds)
    f = {"call": call, "kind": kind}
    if kind in ("raise", "eval", "jac"):
        f["exc"] = rng.choice(
            ["ValueError", "LinAlgError", "FloatingPointError", "MemoryError", "TypeError", "ZeroDivisionError"]
            + (["NotImplementedError"] if kind == "jac" else [])
        )
    if kind == "nanres":
        f["m"] = rng.choice([1, 3, 100])
    if kind in ("eval", "jac", "maxfev", "nanres"):
        f["k"] = rng.choice([0, 1, 2, 3, 5, 8, 13, 25])
    if kind == "ier":
        f["k"] = rng.choice([0, 5, 6, 7, 8])
    if kind == "blowup":
        f["seed"] = rng.randrange(1000)
        f["amount"] = rng.choice([0.01, 0.3, 3.0])
        f["shift"] = rng.choice([0.0, 0.0, 0.5])
    if kind == "nan":
        f["k"] = rng.randrange(4)
    return f
