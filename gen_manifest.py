"""Writes MANIFEST.json from the property modules present and the texts below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {
 "C01": "Seeded histories of set/fit/extract/estimate/save/load on one object compared with what was in memory; files on a simulated disk which splits transfers. Bounded history length and data sizes.",
 "C02": "Seeded histories of saves of all six kinds with a fault at a chosen step (open, n-th write, flush, close, serialisation); content compared with a fault-free twin.",
 "C03": "Seeded damage to real files (cut at any byte, lost/torn/zeroed blocks, repeated/missing lines, bit flips, crash during save), loaded into used objects. A cut is judged exactly; other damage only for error type and array lengths.",
 "C04": "Seeded write/read/damage histories of PDF data and baseline files including read faults and leaked file handles.",
 "C05": "Seeded cluster histories and whole extractions with faults injected into chosen optimizer calls; exact comparison of state before and after a failed call.",
 "C06": "Seeded cluster histories with optimizer faults, quality recomputed independently; recovery of noise-free models once faults stop.",
 "C07": "Seeded histories of fits, prunings, augmentations, extractions, saves and loads with optimizer faults against the flags of the supplied parts.",
 "C08": "Exceptions raised at seeded instants (executed lines of the package, evaluations of the optimizer), inputs and repeated result compared with an undisturbed twin.",
 "C09": "Real threads run one at a time by a seeded scheduler which switches at executed lines; results compared with serial runs.",
 "C10": "The same plan run under different ambient conditions (hash seeds, clock, environment, random state, print and error settings, process history) and compared byte by byte.",
 "C11": "Seeded iteration histories of DataClusters against a reference model, invariants after each step.",
 "C12": "Seeded histories of multi-model sessions against independent extractions and recomputed AICs and probabilities.",
 "C13": "Seeded extractions with logging and tracing variants, file and callback faults, compared with unobserved twins.",
 "C14": "The command's main() run in process on seeded option lists and compared with an API twin, with output faults.",
 "C16": "Seeded histories of settings, defaults, refusals, failures and extractions against a model of the documented rules; evaluators and clusterings used inside extractions recorded.",
 "C17": "Seeded histories with looks between operations (some interrupted at chosen lines) and in the middle of them, compared with a twin without looks.",
 "C18": "Seeded sequences of plots in one process with file faults and interrupts; figures are read back from their artists and compared with values computed from the parts.",
 "C15": "Seeded histories on copies, slices, joins and returned objects, with snapshots of all parties after each operation.",
}
NA = {
 "N01": "Pure function of its arguments: no scheduling, time, I/O, randomness or failure it could depend on, so there is nothing for a simulator to decide (a property-based or symbolic method would fit). Round trips through files are covered by C01.",
 "N02": "Pure numerical property of single function evaluations; no schedule, history or fault is involved. Its consequence for fits is covered by C06 (recovery).",
 "N03": "Pure numerical property of resampling and Fourier filtering of one array; no schedule, history or fault is involved.",
 "N04": "Pure formula of three numbers; no schedule, history or fault is involved. C06 and C12 recompute the values they need independently.",
 "N05": "Pure linear algebra on one matrix; no schedule, history or fault is involved.",
 "N06": "Statistical accuracy of estimates for one data set; no schedule, history or fault is involved, and the repository states no bounds.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": "bash check.sh %s" % i, "thorough_cmd": "bash check.sh %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection, seeded search", "level": "exploration",
            "level_note": NOTE[i] + " No guarantee beyond the runs explored; deterministic given VERIF_SEED.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (optimizer entry, open(), clock, executed lines, environment) is reached from outside. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
