"""C11: clustering covers every point, in any iteration history."""
import copy
import sys
import warnings

import numpy as np

from sim import instants, ops, optim, world
from sim.core import SimCrash, Violation
from sim.world import r3

from diffpy.srmise.dataclusters import DataClusters

QUICK_RUNS = 4000
THOROUGH_RUNS = 1000000
LIMIT = 120
LEVEL = "exploration"
RULE = (
    "a run is a history of up to 25 steps, complete and abandoned iterations, restarts, combinations (accepted and refused), "
    "queries, copies, plots and animations of a clustering of up to 60 points (peaks, noise, ties, constant; even and uneven "
    "grids), some of them stopped at a chosen executed line; or a whole extraction or estimation, with optimizer failures, "
    "all of whose clusterings are followed by the model; non-trivial: at least 3 steps were compared with the model; "
    "distinct by digest of the clusters after every operation"
)
STATE_MEASURE = "(operation, kind of step, number of clusters up to 6, interrupted)"
REAL = ["diffpy.srmise.dataclusters", "matplotlib (Agg)", "all of diffpy.srmise used by extractions and estimations"]
STUB = ["instants of interrupts", "optimizer outcomes"]
ASSUMPTIONS = ["coordinates increase strictly, values are numbers"]
SHRINK_LISTS = ("ops", "faults")

EXC = {"interrupt": KeyboardInterrupt, "memory": MemoryError, "crash": SimCrash}


def gen_data(rng):
    n = rng.choice([1, 2, 3, 5, 8, 13, 20, 30, 45, 60])
    kind = rng.choice(["peaks", "peaks", "peaks", "noise", "ties", "constant", "rising", "falling"])
    if rng.random() < 0.7:
        dx = rng.choice([0.05, 0.1, 0.125, 1.0])
        x = [round(-1 + i * dx, 6) for i in range(n)]
    else:
        x = [r3(rng.uniform(-1, 1))]
        for _ in range(n - 1):
            x.append(round(x[-1] + rng.choice([0.02, 0.1, 0.3, 1.0]) * rng.uniform(0.2, 1), 6))
    L = x[-1] - x[0] + 0.1
    if kind == "peaks":
        pk = [(x[0] + rng.random() * L, rng.uniform(0.02, 0.2) * L, rng.uniform(0.2, 2)) for _ in range(rng.randint(1, 6))]
        y = [r3(sum(a * np.exp(-((v - c) / w) ** 2) for c, w, a in pk) + rng.gauss(0, 0.01)) for v in x]
    elif kind == "noise":
        y = [r3(rng.gauss(0, 1)) for _ in x]
    elif kind == "ties":
        y = [float(rng.randint(0, 3)) for _ in x]
    elif kind == "constant":
        y = [1.0] * n
    else:
        y = [float(i if kind == "rising" else -i) for i in range(n)]
    dx = (x[-1] - x[0]) / max(n - 1, 1)
    res = rng.choice([0.0, 0.0, dx, r3(1.5 * dx), r3(2.5 * dx), r3(rng.uniform(0, 6) * dx), r3(L), 100.0])
    return {"x": x, "y": y, "res": res}


def gen_op(rng):
    k = rng.choice(["next", "next", "next", "next", "for", "for", "make", "reset", "reset", "combine", "combine", "combine",
                    "badcombine", "badcombine", "near", "near", "near2", "near2", "adjacent", "full", "cut", "bounds", "copy",
                    "eq", "plot", "animate"])
    op = {"op": k, "n": rng.choice([1, 1, 2, 3, 5, 10, 20])}
    if k in ("near", "near2", "combine", "badcombine", "cut"):
        op["u"] = rng.randrange(1 << 30)
        op["v"] = rng.uniform(-0.1, 1.1)
    if k in ("plot", "animate") and rng.random() < 0.7:
        op["op"] = "next"
    if rng.random() < 0.25:
        op["stop"] = [rng.choice(sorted(EXC)), rng.choice([rng.randrange(12), rng.randrange(80), rng.randrange(600)])]
    return op


def generate(rng, tier):
    if rng.random() < 0.06:
        case = world.gen_case(rng, rng.choice(["tiny", "tiny", "tiny", "small", "medium"]))
        if rng.random() < 0.3:
            case["initial"] = world.gen_initial(rng, case)
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.choice([1, 3, 10])):
                faults.append(optim.gen_fault(rng, 60))
        return {"mode": "whole", "case": case, "faults": faults,
                "estimate": r3(ops.inner(case, rng.random())) if rng.random() < 0.3 else None}
    return {"mode": "object", "data": gen_data(rng), "ops": [gen_op(rng) for _ in range(rng.randint(3, 25))]}


# --- reference model ---------------------------------------------------------


def plain(clusters):
    a = np.asarray(clusters)
    return [(int(c[0]), int(c[1])) for c in a]


class Ref(object):
    """What is known of a clustering from its data alone."""

    def __init__(self, x, y, res):
        self.x = [float(v) for v in x]
        self.y = [float(v) for v in y]
        self.res = float(res)
        self.tol = 1e-12 * (1 + max(abs(v) for v in self.x))
        self.start()

    def start(self):
        m = max(self.y)
        self.starts = [[(i, i)] for i, v in enumerate(self.y) if v == m]
        self.clusters = None

    def begin(self, d):
        """Follow a clustering just started."""
        c = plain(d.clusters)
        if c not in self.starts or d.lastpoint_idx != c[0][0]:
            raise Violation("wrong-start", "%s, last point %s" % (c, d.lastpoint_idx))
        self.clusters = c

    def unassigned(self):
        got = set()
        for lo, hi in self.clusters:
            got.update(range(lo, hi + 1))
        return [i for i in range(len(self.x)) if i not in got]

    def distances(self, p):
        out = []
        for k, (lo, hi) in enumerate(self.clusters):
            if p < lo:
                out.append((self.x[lo] - self.x[p], k))
            elif p > hi:
                out.append((self.x[p] - self.x[hi], k))
            else:
                out.append((0.0, k))
        return out

    def after(self):
        """The clusters possible after one more step: list of (point, cluster index, clusters, kind)."""
        rest = self.unassigned()
        if not rest:
            return []
        m = max(self.y[i] for i in rest)
        out = []
        for p in rest:
            if self.y[p] != m:
                continue
            ds = self.distances(p)
            near = min(d for d, _ in ds)
            if near <= self.res + self.tol:
                for d, k in ds:
                    if d <= near + self.tol:
                        c = list(self.clusters)
                        c[k] = (min(c[k][0], p), max(c[k][1], p))
                        out.append((p, k, c, "join"))
            if near > self.res - self.tol:
                k = sum(1 for lo, hi in self.clusters if hi < p)
                c = list(self.clusters)
                c.insert(k, (p, p))
                out.append((p, k, c, "new"))
        return out

    def valid(self, clusters):
        last = -1
        for lo, hi in clusters:
            if not last < lo <= hi < len(self.x):
                return False
            last = hi
        return len(clusters) > 0

    def check_step(self, d):
        """A step has been made."""
        c = plain(d.clusters)
        if not self.valid(c):
            raise Violation("clusters-not-disjoint-ranges", "%s after %s" % (c, self.clusters))
        a = self.after()
        m = [t for t in a if t[2] == c]
        if not m:
            raise Violation("wrong-step", "%s after %s, not one of %s" % (c, self.clusters, [t[2] for t in a][:4]))
        if not any(t[0] == d.lastpoint_idx and t[1] == d.lastcluster_idx for t in m):
            raise Violation("wrong-report-of-step", "point %s cluster %s, not one of %s"
                            % (d.lastpoint_idx, d.lastcluster_idx, [t[:2] for t in m]))
        self.clusters = c
        return m[0][3]

    def check_end(self, d):
        if self.unassigned():
            raise Violation("points-left-out", "%s of %d points" % (self.unassigned()[:10], len(self.x)))
        if plain(d.clusters) != self.clusters:
            raise Violation("clusters-changed-at-the-end", "%s after %s" % (plain(d.clusters), self.clusters))

    def adjacent(self):
        out = []
        run = [0]
        for k in range(1, len(self.clusters) + 1):
            if k < len(self.clusters) and self.clusters[k][0] == self.clusters[k - 1][1] + 1:
                run.append(k)
            else:
                if len(run) > 1:
                    out.append(run)
                run = [k]
        return out

    def combined(self, groups):
        c = list(self.clusters)
        gone = set()
        for g in groups:
            c[g[0]] = (c[g[0]][0], c[g[-1]][1])
            gone.update(g[1:])
        return [v for k, v in enumerate(c) if k not in gone]

    def check_nearest(self, r, p):
        ds = self.distances(p)
        k, dist = int(r[0]), float(r[1])
        near = min(v for v, _ in ds)
        lo, hi = self.clusters[k] if 0 <= k < len(self.clusters) else (None, None)
        if lo is None or ds[k][0] > near + self.tol:
            raise Violation("not-the-nearest-cluster", "point %d: %s of %s" % (p, r, self.clusters))
        want = ds[k][0] if p > hi else -ds[k][0]
        if abs(dist - want) > self.tol:
            raise Violation("wrong-distance", "point %d: %s of %s, not %s" % (p, r, self.clusters, want))

    def check_nearest2(self, r, v):
        """v need not be on the grid: the answer is that of one of the grid points next to v, the nearer one."""
        gap = min(abs(v - t) for t in self.x)
        pts = [i for i, t in enumerate(self.x) if abs(v - t) <= gap + self.tol]
        err = None
        for p in pts:
            try:
                return self.check_nearest(r, p)
            except Violation as e:
                err = e
        raise Violation(err.kind + "-of-coordinate", "%s (x=%r)" % (err.detail, v))


# --- runs ----------------------------------------------------------------------


def state(d):
    return (plain(d.clusters), int(d.current_idx), d.lastcluster_idx, d.lastpoint_idx, d.status, world._plain(np.asarray(d.x)),
            world._plain(np.asarray(d.y)), d.res, world._plain(np.asarray(d.data_order)))


def execute(plan, ctx):
    if plan["mode"] == "whole":
        return run_whole(plan, ctx)
    data = plan["data"]
    x, y = np.array(data["x"]), np.array(data["y"])
    x.setflags(write=False)
    y.setflags(write=False)
    d = DataClusters(x, y, data["res"])
    ref = Ref(x, y, data["res"])
    ref.begin(d)
    # The course of an undisturbed clustering
    fresh = DataClusters(x, y, data["res"])
    path = [plain(fresh.clusters)]
    f = Ref(x, y, data["res"])
    f.begin(fresh)
    while True:
        try:
            next(fresh)
        except StopIteration:
            f.check_end(fresh)
            break
        f.check_step(fresh)
        path.append(plain(fresh.clusters))
        ctx.check(len(path) <= len(x), "too-many-steps", lambda: path[-1])
    again = DataClusters(x, y, data["res"])
    ctx.check(again.__eq__(DataClusters(x, y, data["res"])), "equal-clusterings-differ")
    again.makeclusters()
    ctx.check(plain(again.clusters) == path[-1] and again == fresh, "course-not-repeated",
              lambda: "%s after %s" % (plain(again.clusters), path[-1]))
    nsteps = len(path)
    run = Run(ctx, d, ref, path)
    for i, op in enumerate(plan["ops"]):
        run.op(i, op)
        ctx.log(i, op["op"], plain(d.clusters))
    # Whatever happened, it can be finished, and started again.
    run.op("end", {"op": "make"})
    run.op("end", {"op": "reset"})
    run.op("end", {"op": "make"})
    ctx.check(plain(d.clusters) == path[-1], "restart-differs", lambda: "%s, not %s" % (plain(d.clusters), path[-1]))
    if run.steps + nsteps > 3:
        ctx.nontrivial = True
    ctx.count("steps", run.steps + nsteps)
    ctx.log("end", plain(d.clusters))


class Run(object):
    def __init__(self, ctx, d, ref, path):
        self.ctx, self.d, self.ref = ctx, d, ref
        self.path = path
        self.pos = 0  # in path, None once clusters were combined
        self.steps = 0

    def stepped(self):
        kind = self.ref.check_step(self.d)
        self.steps += 1
        self.ctx.count("checks")
        if self.pos is not None:
            self.pos += 1
            if self.pos >= len(self.path) or self.path[self.pos] != self.ref.clusters:
                raise Violation("course-not-repeated", "step %d: %s" % (self.pos, self.ref.clusters))
        return kind

    def ended(self):
        self.ref.check_end(self.d)
        self.ctx.count("checks")

    def op(self, i, op):
        d, ctx, ref = self.d, self.ctx, self.ref
        k = op["op"]
        before = state(d)
        stop = op.get("stop")
        inj = instants.Injector(stop[1] if stop else None, EXC[stop[0]]() if stop else None)
        what = lambda: "operation %s %r: %s after %s" % (i, op, plain(d.clusters), before[0])
        result = error = None
        args = self.prepare(op)
        interrupted = False
        # What this operation may lead to is found with a twin.
        twin = copy.deepcopy(d) if stop else None
        try:
            with warnings.catch_warnings(), inj:
                result = self.perform(k, op, args)
        except tuple(EXC.values()):
            if inj.fired is None:
                raise
            interrupted = True
            ctx.fault("interrupt:" + stop[0])
        except (ValueError, IndexError) as e:
            error = e
        finally:
            world.plt.close("all")
        if interrupted:
            ctx.state(k, "interrupted", min(len(ref.clusters), 6))
            if k in ("next", "for", "make"):
                self.resume(twin, k, op, what)
            elif k == "reset":
                # Start again, completely
                d.reset_clusters()
                ref.begin(d)
                self.pos = 0
            elif k == "combine":
                c = plain(d.clusters)
                if c != before[0]:
                    ctx.check(c == ref.combined(args), "combined-wrongly", what)
                    ref.clusters = c
                    self.pos = None
            elif k == "animate" and state(d) != before and self.late(twin, stop[1]):
                # struck while it was putting the state back
                d.reset_clusters()
                ref.begin(d)
                self.pos = 0
            else:
                ctx.check(state(d) == before, "changed-by-interrupted-query", what)
            return
        if error is not None:
            ctx.check(k == "badcombine", "unexpected-error", lambda: "%s: %r" % (what(), error))
            ctx.check(isinstance(error, ValueError), "wrong-error", lambda: "%s: %r" % (what(), error))
            ctx.check(state(d) == before, "changed-by-refused-combination", what)
            ctx.probe("refused combination")
            return
        if k in ("next", "for", "make"):
            ctx.state(k, result, min(len(ref.clusters), 6))
        elif k == "reset":
            ref.begin(d)
            self.pos = 0
        elif k == "combine":
            want = ref.combined(args)
            ctx.check(plain(d.clusters) == want, "combined-wrongly", lambda: "%s, not %s" % (what(), want))
            if args:
                self.pos = None
                ref.clusters = want
            ctx.state(k, len(args), min(len(ref.clusters), 6))
        elif k == "badcombine":
            ctx.check(args is None, "combination-not-refused", lambda: "%s %s" % (what(), args))
        else:
            ctx.check(state(d) == before, "changed-by-query", what)
            self.answer(k, op, args, result, what)
            ctx.state(k, min(len(ref.clusters), 6))

    def late(self, twin, n):
        """Whether line n of an animation is among its last, which restore the state."""
        inj = instants.Injector(None, None)
        try:
            with warnings.catch_warnings(), inj:
                twin.animate()
        finally:
            world.plt.close("all")
        return n >= inj.count - 20

    def prepare(self, op):
        k, ref = op["op"], self.ref
        n = len(ref.clusters)
        if k == "near":
            return op["u"] % len(ref.x)
        if k == "near2":
            if op["u"] % 3 == 0:
                return ref.x[op["u"] // 3 % len(ref.x)]
            return ref.x[0] + op["v"] * (ref.x[-1] - ref.x[0])
        if k == "combine":
            adj = ref.adjacent()
            u = op["u"]
            out = []
            for g in adj:
                if u % 3 == 0:
                    continue
                if u % 3 == 1:
                    g = g[u // 3 % (len(g) - 1):]
                u //= 7
                out.append(g if u % 2 else np.array(g))
            return out
        if k == "badcombine":
            u = op["u"]
            adj = ref.adjacent()
            bad = []
            for g in adj:
                bad.append([g, list(reversed(g))])
                bad.append([g, g[:1]])
                bad.append([list(reversed(g))])
                if len(g) > 2:
                    bad.append([[g[0], g[2]]])
                    bad.append([[g[0], g[2], g[1]]])
            for a in range(n - 1):
                if ref.clusters[a + 1][0] != ref.clusters[a][1] + 1:
                    bad.append([[a, a + 1]])
                    bad.extend([g, [a, a + 1]] for g in adj if a not in g and a + 1 not in g)
            return bad[u % len(bad)] if bad else None
        if k == "cut":
            u = op["u"]
            return u % n if u % 3 else sorted({u % n, u // 7 % n, u // 11 % n})
        return None

    def perform(self, k, op, args):
        d = self.d
        if k == "next":
            kind = None
            for _ in range(op["n"]):
                try:
                    next(d)
                except StopIteration:
                    self.ended()
                    kind = "end"
                else:
                    kind = self.stepped()
            return kind
        if k == "for":
            n = 0
            for step in d:
                if step is not d:
                    raise Violation("iterator-of-another-object")
                n += 1
                self.stepped()
                if n >= op["n"]:
                    return "abandoned"
            self.ended()
            return "end"
        if k == "make":
            d.makeclusters()
            self.follow()
            return "make"
        if k == "reset":
            return d.reset_clusters()
        if k == "combine":
            return d.combine_clusters(args)
        if k == "badcombine":
            return None if args is None else d.combine_clusters(args)
        if k == "near":
            return d.find_nearest_cluster(args)
        if k == "near2":
            return d.find_nearest_cluster2(args)
        if k == "adjacent":
            return d.find_adjacent_clusters()
        if k == "full":
            return [bool(d.cluster_is_full(i)) for i in range(len(d.clusters))]
        if k == "cut":
            return d.cut(args)
        if k == "bounds":
            return d.cluster_boundaries()
        if k == "copy":
            c = copy.deepcopy(d)
            c.makeclusters()
            e = copy.copy(d)
            e.reset_clusters()
            return c
        if k == "eq":
            return [d == d, d == copy.deepcopy(d), d == 3, d == DataClusters(d.x, d.y, d.res + 1)]
        if k == "plot":
            return d.plot()
        if k == "animate":
            return d.animate()
        raise AssertionError(k)

    def follow(self):
        """All points have been clustered at once: any course of steps leading there will do."""
        ref, d = self.ref, self.d
        c = plain(d.clusters)
        if not ref.valid(c):
            raise Violation("clusters-not-disjoint-ranges", "%s after %s" % (c, ref.clusters))
        if self.pos is not None:
            if c != self.path[-1]:
                raise Violation("course-not-repeated", "%s, not %s" % (c, self.path[-1]))
            self.pos = len(self.path) - 1
        else:
            while ref.unassigned():
                a = ref.after()
                good = [t for t in a if all(any(lo <= u and v <= hi for lo, hi in c) for u, v in t[2])]
                if not good:
                    raise Violation("wrong-step", "%s from %s" % (c, ref.clusters))
                ref.clusters = good[0][2]
                if len(a) > 1:
                    break  # several courses are possible
        ref.clusters = c
        if ref.unassigned():
            raise Violation("points-left-out", "%s" % ref.unassigned()[:10])
        self.steps += 1

    def resume(self, twin, k, op, what):
        """A step was interrupted: it has been made or not."""
        ref, d, ctx = self.ref, self.d, self.ctx
        c = plain(d.clusters)
        if k != "make":
            if c == ref.clusters:
                return
            m = [t for t in ref.after() if t[2] == c]
            ctx.check(m, "wrong-interrupted-step", lambda: "%s of %s" % (what(), ref.clusters))
            ref.clusters = c
            if self.pos is not None:
                self.pos += 1
                ctx.check(self.pos < len(self.path) and self.path[self.pos] == c, "course-not-repeated", what)
            return
        seen = [plain(twin.clusters)]
        pos = self.pos
        for _ in twin:
            seen.append(plain(twin.clusters))
        ctx.check(c in seen, "wrong-interrupted-step", what)
        if pos is not None:
            self.pos = pos + seen.index(c)
        ref.clusters = c

    def answer(self, k, op, args, r, what):
        ref, ctx, d = self.ref, self.ctx, self.d
        ctx.count("checks")
        if k == "near":
            ref.check_nearest(r, args)
        elif k == "near2":
            ref.check_nearest2(r, args)
        elif k == "adjacent":
            want = ref.adjacent()
            got = [[int(v) for v in g] for g in r]
            ctx.check(got == want, "wrong-adjacency", lambda: "%s: %s, not %s" % (what(), got, want))
        elif k == "full":
            n = len(ref.x)
            want = []
            for a, (lo, hi) in enumerate(ref.clusters):
                left = a == 0 and lo == 0 or a > 0 and ref.clusters[a - 1][1] == lo - 1
                right = hi == n - 1 or a + 1 < len(ref.clusters) and ref.clusters[a + 1][0] == hi + 1
                want.append(left and right)
            ctx.check(r == want, "wrong-fullness", lambda: "%s: %s, not %s" % (what(), r, want))
        elif k == "cut":
            got = r if isinstance(r, list) else [r]
            idx = args if isinstance(args, list) else [args]
            want = [list(range(ref.clusters[a][0], ref.clusters[a][1] + 1)) for a in idx]
            got = [list(range(len(ref.x)))[s] for s in got]
            ctx.check(got == want and isinstance(r, list) == isinstance(args, list), "wrong-slices",
                      lambda: "%s: %s, not %s" % (what(), r, want))
        elif k == "bounds":
            b = np.asarray(r)
            ctx.check(b.ndim == 2 and b.shape[1] == 2 and np.isfinite(b).all(), "boundaries-not-coordinates", what)
            xs = b[:, 0]
            for lo, hi in ref.clusters:
                for p, q in ((max(lo - 1, 0), lo), (hi, min(hi + 1, len(ref.x) - 1))):
                    a, z = ref.x[p] - ref.tol, ref.x[q] + ref.tol
                    ctx.check(((xs >= a) & (xs <= z)).any(), "boundary-missing", lambda: "%s: %s" % (what(), r))
        elif k == "copy":
            left = Ref(ref.x, ref.y, ref.res)
            left.clusters = plain(r.clusters)
            ctx.check(not left.unassigned() and left.valid(left.clusters), "copy-incomplete", what)
        elif k == "eq":
            ctx.check([bool(v) for v in r] == [True, True, False, False], "wrong-equality", lambda: "%s: %s" % (what(), r))


# --- whole extractions ---------------------------------------------------------


class Watch(object):
    """Follows every clustering a whole operation makes."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.refs = {}
        self.stack = []
        self.steps = 0
        self.ends = 0
        self.emits = 0

    def ref(self, d):
        t = self.refs.get(id(d))
        if t is None:
            r = Ref(d.x, d.y, d.res)
            r.begin(d)
            self.refs[id(d)] = t = (d, r)
            self.stack.append(d)
        return t[1]

    def __enter__(self):
        w = self
        self.old = (DataClusters.__next__, DataClusters.combine_clusters, DataClusters.find_nearest_cluster2,
                    type(world.srmiselog.tracer).emit)
        onext, ocombine, onear, oemit = self.old

        def __next__(d):
            r = w.ref(d)
            if plain(d.clusters) != r.clusters:
                raise Violation("clusters-changed-between-steps", "%s, were %s" % (plain(d.clusters), r.clusters))
            try:
                out = onext(d)
            except StopIteration:
                r.check_end(d)
                w.ends += 1
                w.stack.remove(d)
                raise
            kind = r.check_step(d)
            w.steps += 1
            w.ctx.count("checks")
            w.ctx.state("whole", kind, min(len(r.clusters), 6), len(w.stack))
            return out

        def combine(d, groups):
            r = w.ref(d)
            groups = [[int(i) for i in g] for g in groups]
            out = ocombine(d, groups)
            want = r.combined(groups)
            if plain(d.clusters) != want:
                raise Violation("combined-wrongly", "%s, not %s" % (plain(d.clusters), want))
            r.clusters = want
            return out

        def near(d, x):
            out = onear(d, x)
            t = w.refs.get(id(d))
            if t is not None:
                t[1].check_nearest2(out, x)
            return out

        def emit(tracer, *objects):
            mcs = [o for o in objects if isinstance(o, world.ModelCluster)]
            caller = sys._getframe(1).f_locals.get("self")
            own = any(m is caller for m in mcs)  # a cluster tracing its reduction
            if mcs and w.stack and not own:
                d = w.stack[-1]
                got = [tuple(m.slice.indices(len(m.r_data))[:2]) for m in mcs]
                want = [(lo, hi + 1) for lo, hi in plain(d.clusters)]
                if got != want:
                    raise Violation("models-not-of-the-clusters", "%s, not %s" % (got, want))
                if w.ref(d).adjacent():
                    raise Violation("adjacent-clusters-not-combined", "%s" % want)
                w.emits += 1
            return oemit(tracer, *objects)

        DataClusters.__next__ = __next__
        DataClusters.combine_clusters = combine
        DataClusters.find_nearest_cluster2 = near
        type(world.srmiselog.tracer).emit = emit
        return self

    def __exit__(self, *a):
        (DataClusters.__next__, DataClusters.combine_clusters, DataClusters.find_nearest_cluster2,
         type(world.srmiselog.tracer).emit) = self.old
        return False


def run_whole(plan, ctx):
    opt = optim.activate(optim.Optimizer(ctx))
    opt.start_op([f for f in plan["faults"]])
    ext = world.make_extraction(plan["case"])
    with Watch(ctx) as w:
        if plan["estimate"] is not None:
            xs = ext.x[ext.getrangeslice()]
            ext.estimate_peak(float(min(max(plan["estimate"], xs[0]), xs[-1])))
        else:
            world.do_extract(ext)
    optim.deactivate()
    ctx.check(not w.stack, "clustering-not-finished", lambda: "%d" % len(w.stack))
    ctx.count("steps", w.steps)
    ctx.count("whole_clusterings", w.ends)
    if w.steps > 3:
        ctx.nontrivial = True
    ctx.probe("whole estimation" if plan["estimate"] is not None else "whole extraction")
    ctx.log("whole", w.steps, w.ends, w.emits, None if ext.extracted is None else world.snap_mc(ext.extracted))


def shrink(plan):
    if plan["mode"] == "object":
        d = plan["data"]
        n = len(d["x"])
        for m in (n // 2, n - 1):
            if 0 < m < n:
                q = copy.deepcopy(plan)
                q["data"]["x"] = d["x"][:m]
                q["data"]["y"] = d["y"][:m]
                yield q
                q = copy.deepcopy(plan)
                q["data"]["x"] = d["x"][n - m:]
                q["data"]["y"] = d["y"][n - m:]
                yield q
        for i, op in enumerate(plan["ops"]):
            if "stop" in op:
                q = copy.deepcopy(plan)
                del q["ops"][i]["stop"]
                yield q
