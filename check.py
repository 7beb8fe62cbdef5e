#!/usr/bin/env python
"""Run the simulation check of one property.

    check.py C01                      search, VERIF_SEED and VERIF_TIER from the environment
    check.py C01 --runs N --jobs J --seed S --tier quick|thorough
    check.py --replay FILE            reproduce a violation from its replay file
    check.py C01 --selftest N         determinism: N plans in this and in fresh interpreters

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the harness itself failed.
"""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import core  # noqa: E402
from sim import world  # noqa: E402  (imports the code under test)


def known_findings(pid):
    """[(property, kind, needle, text)] of the open findings of pid."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                d = json.loads(line[9:])
                if d["property"] == pid:
                    out.append(d)
    return out


def match_finding(findings, kind, detail):
    for d in findings:
        if d["kind"] == kind and d["contains"] in detail:
            return d
    return None


def in_child(func):
    """Run func in a forked child whose output is discarded; return its JSON result."""
    sys.stdout.flush()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        dn = os.open(os.devnull, os.O_RDWR)
        for fd in (0, 1, 2):
            os.dup2(dn, fd)
        try:
            with os.fdopen(wfd, "w") as f:
                f.write(json.dumps(func()))
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data) if data else None


def replay_file(path):
    d = json.load(open(path))
    pid = d["property"]
    mod = core.load_prop(pid)
    r = core.run_plan(pid, d["plan"], getattr(mod, "LIMIT", 120), verbose=True)
    print("status: %s  digest: %s  events: %s" % (r["status"], r["digest"], r["nevents"]))
    if r["status"] in ("violation", "hang"):
        print("kind: %s\ndetail: %s" % (r["kind"], r["detail"]))
        same = d.get("kind") in (None, r["kind"])
        exact = d.get("digest") in (None, r["digest"])
        print("reproduces the recorded violation: %s (event log identical: %s)" % (same, exact))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if r["status"] == "error":
        print(r["detail"])
        return 2
    return 0


def selftest(pid, n, seed, tier):
    bad = 0
    mod = core.load_prop(pid)
    limit = getattr(mod, "LIMIT", 120)
    for i in range(n):
        plan = core.make_plan(pid, seed, i, tier)
        a = in_child(lambda: core.run_plan(pid, plan, limit))
        b = core.run_fresh(pid, plan, limit, hashseed=str(1 + i))
        same = a["digest"] == b["digest"] and a["status"] == b["status"]
        if not same:
            bad += 1
            print("run %d differs: %s/%s %s/%s" % (i, a["status"], b["status"], a["nevents"], b["nevents"]))
            for x, y in zip(a["trail"], b["trail"]):
                if x != y:
                    print("   first difference:\n   %s\n   %s" % (x, y))
                    break
    print("selftest %s: %d of %d runs differ between interpreters" % (pid, bad, n))
    return 2 if bad else 0


def search(pid, seed, tier, nruns, jobs, budget):
    mod = core.load_prop(pid)
    limit = getattr(mod, "LIMIT", 120)
    t0 = time.monotonic()
    print("check %s tier=%s seed=%d runs<=%d jobs=%d" % (pid, tier, seed, nruns, jobs))
    findings = known_findings(pid)
    agg = {
        "status": {}, "counts": {}, "states": set(), "digests": set(), "nontrivial": 0,
        "simtime": 0.0, "events": 0, "samples": [], "seeds": 0, "runwall": 0.0,
    }
    hits = []
    errors = []
    known_hit = {}

    def on_result(r):
        st = r["status"]
        agg["status"][st] = agg["status"].get(st, 0) + 1
        if st in ("stopped",):
            return False
        if st == "error":
            errors.append((r["index"], r.get("detail")))
            return len(errors) >= 5
        agg["seeds"] += 1
        for k, v in r["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        agg["states"].update(r["states"])
        agg["events"] += r["nevents"]
        agg["simtime"] += r["simtime"]
        agg["runwall"] += r["wall"]
        if r["nontrivial"] and st != "skip":
            agg["digests"].add(r["digest"])
        if st == "ok" and r["nontrivial"] and r.get("plan") is not None and len(agg["samples"]) < 2:
            agg["samples"].append({"index": r["index"], "plan": shorten(r["plan"])})
        if st in ("violation", "hang"):
            f = match_finding(findings, r["kind"], r["detail"])
            if f is not None:
                known_hit[f["id"]] = f
                return False
            hits.append(r)
            return True
        return False

    failed = core.run_batch(pid, seed, tier, nruns, jobs, budget, limit, on_result)
    confirmed = None
    hits.sort(key=lambda r: r["index"])
    for r in hits[:4]:
        confirmed = confirm(pid, mod, r, limit, findings, known_hit)
        if confirmed:
            break
    wall = time.monotonic() - t0

    # Determinism: some plans again in fresh interpreters with another hash seed.
    det = {"repeated": 0, "identical": 0}
    if not confirmed and not errors:
        for i in range(2 if tier == "quick" else 8):
            plan = core.make_plan(pid, seed, i, tier)
            a = in_child(lambda: core.run_plan(pid, plan, limit))
            b = core.run_fresh(pid, plan, limit, hashseed=str(17 + i))
            det["repeated"] += 1
            det["identical"] += int(bool(a) and a["digest"] == b["digest"])
    wall = time.monotonic() - t0

    faults = {k[6:]: v for k, v in sorted(agg["counts"].items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(agg["counts"].items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(agg["counts"].items()) if ":" not in k}
    cov = {
        "evaluations": agg["seeds"],
        "distinct_nontrivial": len(agg["digests"]),
        "rule": mod.RULE,
        "samples": agg["samples"] or [{"note": "no non-trivial run among the first"}],
        "simulated_runs": agg["seeds"],
        "runs_per_hour": round(agg["seeds"] / max(wall, 1e-9) * 3600),
        "run_status": agg["status"],
        "simulated_seconds": round(agg["simtime"], 1),
        "events": agg["events"],
        "faults_fired": faults,
        "probes": probes,
        "counters": other,
        "distinct_states": len(agg["states"]),
        "state_measure": getattr(mod, "STATE_MEASURE", "abstract states registered by the run"),
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "determinism_check": det,
        "jobs": jobs,
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
        "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2),
        "violations": 1 if confirmed else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("runs %d (%s), %.0f runs/h, distinct non-trivial %d, states %d, faults %s" % (
        agg["seeds"], agg["status"], cov["runs_per_hour"], len(agg["digests"]), len(agg["states"]), faults))
    print("probes %s" % probes)
    print("determinism %s, wall %.1fs" % (det, wall))
    for f in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if confirmed:
        print("violation kind: %s" % confirmed["kind"])
        print("detail: %s" % confirmed["detail"])
        print("VIOLATION property=%s replay=%s" % (pid, confirmed["path"]))
        return 1
    if errors or failed:
        for i, e in errors[:3]:
            print("HARNESS ERROR in run %s:\n%s" % (i, e))
        for e in failed:
            print("HARNESS ERROR: %s" % e)
        return 2
    if hits:
        # Seen once, but neither in a repetition here nor in a fresh process.
        print("HARNESS ERROR: %d violations did not reproduce, first: %s" % (len(hits), hits[0]["detail"]))
        return 2
    if agg["seeds"] == 0:
        print("HARNESS ERROR: nothing was run")
        return 2
    return 0


def shorten(v, n=12):
    if isinstance(v, dict):
        return {k: shorten(x, n) for k, x in v.items()}
    if isinstance(v, list):
        s = [shorten(x, n) for x in v[:n]]
        return s + ["... %d more" % (len(v) - n)] if len(v) > n else s
    return v


def confirm(pid, mod, r, limit, findings, known_hit):
    """Repeat, minimise and store a violation; None if it does not reproduce."""
    plan, kind, detail = r["plan"], r["kind"], r["detail"]
    if r["status"] == "hang":
        f = core.run_fresh(pid, plan, 2 * limit)
        if f["status"] not in ("hang", "violation"):
            return None
        kind, detail = f["kind"], f["detail"]
        best, tries = plan, 0
    else:
        again = core.run_fresh(pid, plan, limit)
        if again["status"] != "violation":
            return None
        kind, detail = again["kind"], again["detail"]
        res = in_child(lambda: core.minimise(pid, plan, kind, limit))
        best, tries = res if res else (plan, 0)
        f = core.run_fresh(pid, best, limit)
        if f["status"] != "violation":
            best = plan
            f = again
        kind, detail = f["kind"], f["detail"]
    known = match_finding(findings, kind, detail)
    if known is not None:
        known_hit[known["id"]] = known
        return None
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s.json" % (pid, core.subseed(json.dumps(best, sort_keys=True)) % 10**8))
    with open(path, "w") as fp:
        json.dump({
            "property": pid, "kind": kind, "detail": detail, "plan": best, "digest": f["digest"] if "digest" in f else None,
            "index": r["index"], "minimisation_tries": tries, "original_plan": plan,
            "trail": f.get("trail", []),
        }, fp, indent=1)
        fp.write("\n")
    return {"kind": kind, "detail": detail, "path": path}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=max(1, len(os.sched_getaffinity(0))))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--run-plan")
    ap.add_argument("--limit", type=float, default=120)
    ap.add_argument("--selftest", type=int)
    ap.add_argument("--show", type=int, help="print the plan with this index")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.replay:
        return replay_file(a.replay)
    if a.run_plan:
        d = json.load(open(a.run_plan))
        r = core.run_plan(d["property"], d["plan"], a.limit)
        print("\nRESULT " + json.dumps(r))
        return 0
    pid = a.property.upper()
    mod = core.load_prop(pid)
    if a.show is not None:
        print(json.dumps(core.make_plan(pid, a.seed, a.show, a.tier), indent=1))
        return 0
    if a.selftest:
        return selftest(pid, a.selftest, a.seed, a.tier)
    runs = a.runs or (mod.QUICK_RUNS if a.tier == "quick" else mod.THOROUGH_RUNS)
    budget = a.budget or (240 if a.tier == "quick" else 3600 * 2)
    return search(pid, a.seed, a.tier, runs, a.jobs, budget)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
