"""C15: copies and returned results are snapshots."""
import copy as copymod

import numpy as np

from sim import clusters, disk, instants, ops, optim, world
from sim.world import ModelCluster, ModelCovariance, PDFDataSet, Peaks, SrMiseError, r3

QUICK_RUNS = 2500
THOROUGH_RUNS = 200000
LIMIT = 90
LEVEL = "exploration"
RULE = (
    "a run keeps a pool of related objects (clusters, models, peaks, baselines, covariances; extraction objects and what "
    "they returned; PDF data sets) with a record of each, performs up to 16 operations, edits, copies and joins on members "
    "of the pool with optimizer faults and interrupts, and compares all other members with their records after each; "
    "non-trivial: an operation changed one of at least two related objects; distinct by digest of the event log"
)
STATE_MEASURE = "(kind of object changed, operation, kinds of objects derived from it present in the pool, how it ended)"
REAL = ["ModelCluster", "ModelParts/ModelPart/Peaks", "ModelCovariance", "PeakExtraction/PDFPeakExtraction", "PDFDataSet",
        "scipy leastsq where not made to fail"]
STUB = ["entry of scipy.optimize.leastsq", "instants (sys.monitoring line events)", "raw file layer (SimDisk)", "clock"]
ASSUMPTIONS = [
    "data arrays are constants shared by copies (as the copies of PDFDataSet document) and not edited in place",
    "clusters joined by join_adjacent share the baseline they had in common",
]
SHRINK_LISTS = ("ops", "faults")

EXCS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


# --- plans -------------------------------------------------------------------


def gen_edit(rng, case):
    k = rng.choice(["pars", "pars", "free", "free", "removable", "static", "owner", "scale", "match", "sort", "append", "pop",
                    "transform", "pack", "reverse"])
    e = {"edit": k, "idx": rng.randrange(5), "par": rng.randrange(3), "v": r3(rng.uniform(0.5, 1.6))}
    if k in ("scale", "match"):
        e["x"] = r3(ops.inner(case, rng.uniform(0.05, 0.95)))
    if k == "append":
        e["peak"] = clusters.gen_peak(rng, case)
    if k == "transform":
        e["fmt"] = rng.choice(["pwa", "default_output"])
    return e


def gen_int(rng):
    if rng.random() < 0.8:
        return None
    return {"n": int(10 ** rng.uniform(0, 3.7)), "exc": rng.choice(sorted(EXCS))}


def gen_clusters(rng):
    case = clusters.gen_cluster(rng, rng.choice(["tiny", "tiny", "small"]))
    if rng.random() < 0.4:
        case.pop("slice", None)
        cut = rng.randint(case["n"] // 4, 3 * case["n"] // 4)
    else:
        cut = None
    olist = []
    for _ in range(rng.randint(2, 16)):
        k = rng.choice(["copy", "copy", "copy", "act", "act", "act", "act", "edit", "edit", "edit", "fitcov", "cov", "join",
                        "augment"])
        op = {"op": k, "i": rng.randrange(12)}
        if k == "copy":
            op["how"] = rng.choice(["copy", "copy", "ctor", "model", "part", "baseline"])
        elif k == "act":
            op["act"] = clusters.gen_op(rng, case)
            op["int"] = gen_int(rng)
        elif k == "edit":
            op.update(gen_edit(rng, case))
        elif k == "fitcov":
            op["fmt"] = rng.choice(["default_output", "pwa", "internal"])
            op["baseline"] = rng.random() < 0.6
        elif k == "cov":
            op.update(how=rng.choice(["transform", "transform", "clear", "pars", "set"]), v=r3(rng.uniform(0.5, 1.6)),
                      parts=rng.choice([None, "peaks", [0]]))
        elif k in ("join", "augment"):
            op.update(j=rng.randrange(12), int=gen_int(rng))
        olist.append(op)
    faults = clusters.gen_faults(rng, [dict(o["act"], op=o["act"]["op"]) if o["op"] == "act" else {"op": "augment"}
                                       if o["op"] == "augment" else {"op": "fit"} if o["op"] == "fitcov" else {"op": ""}
                                       for o in olist], 0.4)
    return {"mode": "clusters", "case": case, "cut": cut, "ops": olist, "faults": faults}


def gen_extraction(rng):
    case = world.gen_case(rng, "tiny", want={"p_initial": 0.6})
    olist = []
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(["extract", "extract", "fit", "fit", "set", "estimate", "addpeak", "save", "load", "clear", "copy",
                        "act", "act", "edit", "cov", "feedback", "loadnew"])
        op = {"op": k, "i": rng.randrange(8), "e": rng.choice([0, 0, 0, 1, 1, 2])}
        if k in ("estimate", "addpeak", "set"):
            op["what"] = ops.gen_op(rng, case, (k,))
            if k == "set" and "edy" not in op["what"]["vars"] and rng.random() < 0.4:
                op["direct"] = True
        elif k == "act":
            op["act"] = clusters.gen_op(rng, case)
        elif k == "edit":
            op.update(gen_edit(rng, case))
        elif k == "cov":
            op.update(how=rng.choice(["transform", "clear", "pars"]), v=r3(rng.uniform(0.5, 1.6)), parts=None)
        elif k == "copy":
            op["how"] = rng.choice(["copy", "ctor", "model", "baseline"])
        if k in ("extract", "fit", "estimate", "load", "loadnew", "save"):
            op["int"] = gen_int(rng)
            if op["int"] and k in ("extract", "fit"):
                op["int"]["n"] = int(10 ** rng.uniform(0, 5))
        olist.append(op)
    faults = []
    if rng.random() < 0.3:
        for i in range(len(olist)):
            f = optim.gen_fault(rng, rng.choice([0, 1, 3, 8]))
            f["op"] = i
            faults.append(f)
    return {"mode": "extraction", "case": case, "ops": olist, "faults": faults}


def gen_pdf(rng):
    olist = []
    for _ in range(rng.randint(2, 10)):
        k = rng.choice(["copy", "copy", "copyto", "setvar", "meta", "meta", "attr", "readstr", "clear", "write", "loadpdf",
                        "replace"])
        olist.append({"op": k, "i": rng.randrange(6), "j": rng.randrange(6), "v": r3(rng.uniform(0.01, 2)),
                      "name": rng.choice(["qdamp", "qbroad", "dscale"]), "n": rng.randint(2, 9),
                      "attr": rng.choice(["qmax", "stype", "rmin", "rmax", "spdiameter", "filename"])})
    return {"mode": "pdf", "ops": olist, "n": rng.randint(3, 12), "v": r3(rng.uniform(0.5, 2))}


def generate(rng, tier):
    t = rng.random()
    return gen_clusters(rng) if t < 0.6 else gen_extraction(rng) if t < 0.92 else gen_pdf(rng)


def execute(plan, ctx):
    return {"clusters": run_clusters, "extraction": run_extraction, "pdf": run_pdf}[plan["mode"]](plan, ctx)


# --- the pool ----------------------------------------------------------------


class Entry(object):
    def __init__(self, kind, obj, origin, shares=None):
        self.kind = kind
        self.obj = obj
        self.origin = origin
        self.shares = shares  # group of clusters with a common baseline
        self.snap = None


class Pool(object):
    def __init__(self, ctx, limit=9):
        self.ctx = ctx
        self.entries = []
        self.names = world.Names(False)
        self.limit = limit
        self.forgotten = 0

    def snap(self, e):
        o = e.obj
        if e.kind == "cluster":
            s = world.snap_mc(o, self.names)
            s["used"] = [world._plain(o.r_cluster), world._plain(o.y_cluster), world._plain(o.error_cluster), o.size]
            if e.shares is not None:
                del s["baseline"]
            return s
        if e.kind == "peaks":
            return world.snap_parts(o, self.names)
        if e.kind == "part":
            return world.snap_part(o, self.names)
        if e.kind == "cov":
            return world.snap_cov(o)
        if e.kind == "ext":
            return world.snap_ext(o, self.names, False)
        if e.kind == "pdf":
            return world.snap_pdf(o)
        if e.kind == "text":
            return o
        raise ValueError(e.kind)

    def add(self, kind, obj, origin, shares=None):
        e = Entry(kind, obj, origin, shares)
        e.snap = self.snap(e)
        self.entries.append(e)
        if len(self.entries) > self.limit:
            # keep the first and the newest, forget one of the others
            self.forgotten += 1
            self.entries.pop(1 + self.forgotten * 5 % (len(self.entries) - 2))
        return e

    def of(self, i, kinds):
        es = [e for e in self.entries if e.kind in kinds]
        return es[i % len(es)] if es else None

    def drop(self, e):
        self.entries = [x for x in self.entries if x is not e]

    def verify(self, changed, what):
        """All but the changed entries are what they were; these are recorded anew."""
        for e in self.entries:
            if any(e is c for c in changed):
                e.snap = self.snap(e)
                continue
            now = self.snap(e)
            d = world.diff(e.snap, now)
            self.ctx.check(d is None, "snapshot-changed",
                           lambda: "%s changed %s (%s): %s" % (what(), e.kind, e.origin, d))

    def related(self):
        return sorted(set(e.kind for e in self.entries))


# --- edits -------------------------------------------------------------------


def edit(obj, op, pfs):
    """Edit a cluster's model, peaks or a part through the documented operations."""
    k = op["edit"]
    parts = obj.model if isinstance(obj, ModelCluster) else obj
    single = not isinstance(parts, (list,))
    p = parts if single else (parts[op["idx"] % len(parts)] if len(parts) else None)
    if k == "append":
        if not single:
            parts.append(world.make_peaks([op["peak"]], pfs)[0])
        return
    if p is None:
        return
    n = len(p.pars)
    j = op["par"] % n if n else None
    if k == "pars" and n:
        p.pars[j] = p.pars[j] * op["v"]
    elif k == "free" and n:
        p.setfree(j, not p.free[j])
    elif k == "removable":
        p.removable = not p.removable
    elif k == "static":
        p.static_owner = not p.static_owner
    elif k == "owner":
        try:
            p.changeowner(pfs[op["par"] % len(pfs)])
        except SrMiseError:
            pass
    elif k == "scale" and hasattr(p, "scale_at"):
        p.scale_at(op["x"], op["v"])
    elif k == "pack":
        if single:
            p.update(p.compress() * op["v"])
        elif parts.npars(False):
            parts.pack_freepars(parts.unpack_freepars() * op["v"])
    elif single:
        return
    elif k == "match" and hasattr(parts, "match_at"):
        parts.match_at(op["x"], op["v"])
    elif k == "sort":
        parts.sort()
    elif k == "reverse":
        parts.sort(key="position", reverse=False)
        parts[:] = list(reversed(parts))
    elif k == "pop":
        del parts[op["idx"] % len(parts)]
    elif k == "transform":
        parts.transform("internal", op["fmt"])


def edit_cov(cov, op):
    if op["how"] == "clear":
        cov.clear()
    elif cov.cov is None:
        return
    elif op["how"] == "transform":
        kw = {} if op["parts"] is None else {"parts": op["parts"]}
        cov.transform("internal", "pwa", **kw)
    elif op["how"] == "pars":
        if len(cov.model) and len(cov.model[0].pars):
            cov.model[0].pars[0] *= op["v"]
            cov.cov[0, 0] *= op["v"]
    elif op["how"] == "set":
        n = cov.model.npars(True)
        cov.setcovariance(cov.model.copy(), op["v"] * np.identity(n))


def make_copy(pool, e, how):
    """Copy of a pool member, checked to equal its original."""
    o = e.obj
    names = pool.names
    if e.kind == "cluster":
        if how == "model":
            c, kind, a, b = o.model.copy(), "peaks", world.snap_parts(o.model, names), None
        elif how == "part":
            if not len(o.model):
                return None
            c, kind, a, b = o.model[0].copy(), "part", world.snap_part(o.model[0], names), None
        elif how == "baseline":
            if o.baseline is None:
                return None
            c, kind, a, b = o.baseline.copy(), "part", world.snap_part(o.baseline, names), None
        else:
            c = o.copy() if how == "copy" else ModelCluster(o)
            kind, a = "cluster", world.snap_mc(o, names)
            a["used"] = [world._plain(o.r_cluster), world._plain(o.y_cluster), world._plain(o.error_cluster), o.size]
            pool.ctx.check(c.baseline is None or o.baseline == c.baseline, "copy-not-equal", "baseline")
            pool.ctx.check(o.model == c.model, "copy-not-equal", "model")
            pool.ctx.check(bool(c.quality() == o.quality()) or o.quality().stat != o.quality().stat, "copy-not-equal", "quality")
    elif e.kind == "peaks":
        if how == "part" and len(o):
            c, kind, a = o[0].copy(), "part", world.snap_part(o[0], names)
        else:
            c, kind, a = o.copy(), "peaks", world.snap_parts(o, names)
            pool.ctx.check(type(c) is type(o) and c == o, "copy-not-equal", "peaks")
    elif e.kind == "part":
        c, kind, a = o.copy(), "part", world.snap_part(o, names)
        pool.ctx.check(type(c) is type(o) and c == o and c.owner() is o.owner(), "copy-not-equal", "part")
    else:
        return None
    new = pool.add(kind, c, "%s of %s" % (how, e.origin))
    d = world.diff(a, new.snap)
    pool.ctx.check(d is None, "copy-not-equal", lambda: "%s of %s (%s): %s" % (how, e.kind, e.origin, d))
    return new


# --- clusters ----------------------------------------------------------------


def interrupted(op, f):
    """Perform f, perhaps interrupted; returns (what it gave, whether it was struck)."""
    i = op.get("int")
    if not i:
        return f(), None
    exc = EXCS[i["exc"]]("simulated")
    inj = instants.Injector(i["n"], exc)
    r = None
    try:
        with inj:
            r = f()
    except BaseException as e:
        if e is not exc and not (inj.fired and isinstance(e, SrMiseError)):  # reported as an error of loading
            raise
        del e
    return r, inj.fired


def run_clusters(plan, ctx):
    src = clusters.Source(plan["case"])
    pool = Pool(ctx)
    if plan["cut"]:
        for k, mc in enumerate(src.pair(plan["cut"])):
            pool.add("cluster", mc, "side %d" % k)
    else:
        pool.add("cluster", src.cluster(), "start")
    opt = optim.activate(optim.Optimizer(ctx))
    group = [0]
    for i, op in enumerate(plan["ops"]):
        opt.start_op([f for f in plan["faults"] if f["op"] == i])
        k = op["op"]
        what = lambda: "operation %d %r" % (i, op)
        if k == "copy":
            e = pool.of(op["i"], ("cluster", "peaks", "part"))
            if e is None:
                continue
            new = make_copy(pool, e, op["how"])
            pool.verify([], what)
            ctx.log(i, k, e.kind, op["how"], new is not None)
            continue
        if k == "cov":
            e = pool.of(op["i"], ("cov",))
            if e is None:
                continue
            edit_cov(e.obj, op)
            changed = [e]
        elif k == "edit":
            e = pool.of(op["i"], ("cluster", "cluster", "peaks", "part"))
            if e is None:
                continue
            edit(e.obj, op, src.pfs)
            changed = [e]
            if e.kind == "cluster" and op["edit"] in ("transform", "reverse", "pars", "pack"):
                # no longer a valid model for fits: only watched from now on
                pool.verify(changed, what)
                pool.drop(e)
                ctx.nontrivial = True
                if not pool.of(0, ("cluster",)):
                    pool.add("cluster", src.cluster(), "anew")
                ctx.log(i, k, op["edit"])
                continue
        elif k in ("join", "augment"):
            a = pool.of(op["i"], ("cluster",))
            b = pool.of(op["j"], ("cluster",))
            if a is None or b is None or a is b and k == "join":
                continue
            if k == "join":
                got = []

                def join():
                    got.append(ModelCluster.join_adjacent(a.obj, b.obj))

                try:
                    r, struck = interrupted(op, join)
                except ValueError:
                    struck = "refused"
                # operands as they were, whatever came of it
                pool.verify([], what)
                if got:
                    group[0] += 1
                    pool.add("cluster", got[0], "join of (%s) and (%s)" % (a.origin, b.origin), shares=group[0])
                    for e in (a, b):
                        if e.shares is None:
                            e.shares = group[0]
                            e.snap = pool.snap(e)
                    ctx.nontrivial = True
                ctx.state("join", bool(got), bool(struck))
                ctx.log(i, k, bool(got), struck)
                continue
            if a is b or len(b.obj.model) > 6:
                continue
            r, struck = interrupted(op, lambda: a.obj.augment(b.obj))
            changed = [a]
            e = a
            if struck:
                pool.verify(changed, what)
                pool.drop(a)
                if not pool.of(0, ("cluster",)):
                    pool.add("cluster", src.cluster(), "anew")
                ctx.nontrivial = True
                ctx.state("augment", "struck", struck)
                ctx.log(i, k, struck)
                continue
        elif k == "fitcov":
            e = pool.of(op["i"], ("cluster",))
            if e is None:
                continue
            cov = ModelCovariance()
            e.obj.fit(fitbaseline=op["baseline"], cov=cov, cov_format=op["fmt"])
            pool.verify([e], what)
            pool.add("cov", cov, "covariance of %s" % e.origin)
            ctx.nontrivial = True
            ctx.state("fitcov", cov.cov is None, pool.related())
            ctx.log(i, k, cov.cov is not None)
            continue
        else:
            e = pool.of(op["i"], ("cluster",))
            if e is None:
                continue
            try:
                r, struck = interrupted(op, lambda: clusters.apply(src, e.obj, op["act"], {}))
            except (ValueError, SrMiseError):
                if op["act"]["op"] not in ("delete", "replace"):
                    raise
                struck = None
            if struck:
                pool.verify([e], what)
                pool.drop(e)
                if not pool.of(0, ("cluster",)):
                    pool.add("cluster", src.cluster(), "anew")
                ctx.nontrivial = True
                ctx.fault("interrupt-" + op["int"]["exc"])
                ctx.state("act", op["act"]["op"], "struck", struck)
                ctx.log(i, k, op["act"]["op"], struck)
                continue
            changed = [e]
        if len(pool.entries) > 1:
            ctx.nontrivial = True
        pool.verify(changed, what)
        ctx.state(e.kind, k, op.get("edit") or (op.get("act") or {}).get("op"), pool.related())
        ctx.log(i, k, e.kind, op.get("edit") or (op.get("act") or {}).get("op"), len(pool.entries), e.snap)


# --- extraction objects ------------------------------------------------------


def run_extraction(plan, ctx):
    case = plan["case"]
    d = disk.SimDisk(ctx, [])
    opt = optim.activate(optim.Optimizer(ctx))
    pool = Pool(ctx, 12)
    exts = [pool.add("ext", world.make_extraction(case), "extraction 0"),
            pool.add("ext", world.make_extraction(case), "extraction 1")]
    files = []
    pfs = world.make_pfs(case["pf"])
    src = clusters.Source(dict(case, edy=case["edy"] or 0.2, em=case["em"] or "AICc", start=[]))
    src.pfs = pfs

    def owner(mc):
        return [x for x in exts if x.obj.extracted is mc]

    def lost(e):
        """Extraction objects stay in the pool."""
        if not any(e is x for x in pool.entries):
            pool.entries.append(e)

    try:
        for i, op in enumerate(plan["ops"]):
            opt.start_op([f for f in plan["faults"] if f["op"] == i])
            k = op["op"]
            e = exts[op["e"] % len(exts)]
            ext = e.obj
            what = lambda: "operation %d %r on %s" % (i, op, e.origin)
            struck = None
            changed = [e]
            label = None
            if k in ("extract", "fit"):
                r, struck = interrupted(op, (lambda: world.do_extract(ext)) if k == "extract" else (lambda: world.do_fit(ext)))
                pool.verify(changed, what)
                if r is not None:
                    pool.add("cov", r, "covariance of %s %d of %s" % (k, i, e.origin))
                if ext.extracted is not None and not any(x.obj is ext.extracted for x in pool.entries):
                    pool.add("cluster", ext.extracted, "result of %s %d of %s" % (k, i, e.origin))
                changed = []
            elif k in ("set", "estimate", "addpeak"):
                try:
                    if op.get("direct"):
                        for name, v in ops.set_kwds(ext, op["what"]["vars"]).items():
                            setattr(ext, name, v)
                    else:
                        r, struck = interrupted(op, lambda: ops.apply(ext, op["what"]))
                except (ValueError, SrMiseError) as err:
                    label = type(err).__name__
                except Exception as err:
                    if k == "set":
                        raise
                    label = type(err).__name__
                if k != "set":
                    changed += [x for x in pool.entries if x.kind == "cluster" and x.obj is ext.extracted]
                    changed += owner(ext.extracted) if ext.extracted is not None else []
            elif k == "feedback":
                if ext.extracted is None:
                    continue
                ext.setvars(quiet=True, initial_peaks=ext.extracted.model.copy(), baseline=ext.extracted.baseline)
            elif k == "save":
                name = "s%d.srmise" % i
                try:
                    r, struck = interrupted(op, lambda: ext.write(d.path(name)))
                    if not struck:
                        files.append(name)
                except SrMiseError:
                    continue
                changed = []
                if struck:
                    # defaults may have been completed; saving itself changes nothing visible (C02)
                    changed = [e]
            elif k in ("load", "loadnew"):
                if not files:
                    continue
                name = files[op["i"] % len(files)]
                target = e
                if k == "loadnew":
                    target = Entry("ext", type(ext)(), "extraction loaded in operation %d" % i)
                r, struck = interrupted(op, lambda: target.obj.read(d.path(name)))
                if k == "loadnew" and not struck and len(exts) < 4:
                    target.snap = pool.snap(target)
                    pool.entries.append(target)
                    exts.append(target)
                    if target.obj.extracted is not None:
                        pool.add("cluster", target.obj.extracted, "loaded in operation %d" % i)
                changed = [target]
                if struck and k == "load":  # may be half loaded
                    target.obj = world.make_extraction(case)
            elif k == "clear":
                ext.clear()
                pool.verify([e], what)
                e.obj = world.make_extraction(case)
            elif k == "copy":
                c = pool.of(op["i"], ("cluster", "peaks", "part"))
                if c is None:
                    continue
                make_copy(pool, c, op["how"])
                changed = []
            elif k == "cov":
                c = pool.of(op["i"], ("cov",))
                if c is None:
                    continue
                edit_cov(c.obj, op)
                changed = [c]
            else:
                c = pool.of(op["i"], ("cluster", "cluster", "peaks", "part") if k == "edit" else ("cluster",))
                if c is None:
                    continue
                held = owner(c.obj)
                changed = [c] + held
                if k == "edit":
                    edit(c.obj, op, pfs)
                else:
                    try:
                        clusters.apply(src, c.obj, op["act"], {})
                    except (ValueError, SrMiseError):
                        if op["act"]["op"] not in ("delete", "replace"):
                            raise
                spoils = k == "edit" and op["edit"] in ("transform", "reverse", "pars", "pack")
                if spoils and c.kind == "cluster":
                    pool.verify(changed, what)
                    pool.drop(c)
                    for h in held:
                        h.obj.clearcalc()
            if struck:
                ctx.fault("interrupt-" + op["int"]["exc"])
            if len(pool.entries) > 2:
                ctx.nontrivial = True
            pool.verify(changed, what)
            for x in exts:
                lost(x)
            ctx.state(k, op.get("edit") or (op.get("act") or {}).get("op"), pool.related(), bool(struck))
            ctx.log(i, k, label, struck, [x.kind for x in pool.entries], e.snap.get("extracted"))
    finally:
        d.release()


# --- PDF data sets -----------------------------------------------------------


def run_pdf(plan, ctx):
    pool = Pool(ctx, 7)
    d = disk.SimDisk(ctx, [])
    a = PDFDataSet("first")
    n = plan["n"]
    a.robs = [0.1 * (i + 1) for i in range(n)]
    a.Gobs = [plan["v"] * np.sin(i) for i in range(n)]
    a.drobs = [0.0] * n
    a.dGobs = [0.1 * plan["v"]] * n
    a.rmin, a.rmax = a.robs[0], a.robs[-1]
    a.qmax = 20.0
    a.metadata = {"temperature": 300.0, "nested": {"list": [1, 2]}}
    pool.add("pdf", a, "first")
    try:
        for i, op in enumerate(plan["ops"]):
            k = op["op"]
            e = pool.of(op["i"], ("pdf",))
            o = e.obj
            what = lambda: "operation %d %r on %s" % (i, op, e.origin)
            changed = [e]
            if k == "copy":
                new = pool.add("pdf", o.copy(), "copy of %s" % e.origin)
                same(ctx, e.snap, new.snap, what, name=True)
                ctx.check(new.obj is not o and type(new.obj) is PDFDataSet, "copy-not-equal", what)
                changed = []
            elif k == "copyto":
                t = pool.of(op["j"], ("pdf",))
                if t is e:
                    continue
                r = o.copy(t.obj)
                ctx.check(r is t.obj, "copy-not-equal", what)
                pool.verify([t], what)
                same(ctx, e.snap, t.snap, what)
                changed = []
            elif k == "setvar":
                o.setvar(op["name"], op["v"])
            elif k == "meta":
                o.metadata["temperature"] = op["v"]
                o.metadata.setdefault("nested", {}).setdefault("list", []).append(op["n"])
            elif k == "attr":
                setattr(o, op["attr"], {"stype": "N", "filename": "other.gr"}.get(op["attr"], op["v"]))
            elif k == "replace":
                o.Gobs = [op["v"] * g for g in o.Gobs]
            elif k == "readstr":
                o.readStr("#### start data\n" + "".join("%g %g\n" % (0.2 * (j + 1), op["v"] * j) for j in range(op["n"])))
            elif k == "clear":
                o.clear()
            elif k == "write":
                if len(o.robs):
                    o.write(d.path("w%d.gr" % i))
                changed = []
            elif k == "loadpdf":
                if len(o.robs) < 3:
                    continue
                ext = world.PDFPeakExtraction()
                ext.loadpdf(o)
                ext.setvars(quiet=True, effective_dy=op["v"], rng=[None, None])
                ext.defaultvars()
                ext.clear()
                changed = []
            if len(pool.entries) > 1 and changed:
                ctx.nontrivial = True
            pool.verify(changed, what)
            ctx.state("pdf", k, len(pool.entries))
            ctx.log(i, k, e.origin, e.snap)
    finally:
        d.release()


def same(ctx, a, b, what, name=False):
    a, b = copymod.deepcopy(a), copymod.deepcopy(b)
    if not name:
        a.pop("name", None)
        b.pop("name", None)
    d = world.diff(a, b)
    ctx.check(d is None, "copy-not-equal", lambda: "%s: %s" % (what(), d))
