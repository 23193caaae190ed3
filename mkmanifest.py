#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed properties."""
import json, sys
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else ["C%02d" % i for i in range(1, 23)]
props = [json.loads(l) for l in open("properties.jsonl")]
NOTE = {
    "main": "Seeded search over simulated executions of the real library (address sanitizer, step budget) against an executable reference model written from the Unicode 15.0 annexes. A sample, not a proof: every codepoint takes part in class-discriminating contexts in every quick run, texts and schedules are sampled. Trusts sim/model.cpp, sim/ucd_tables.h, clang.",
    "conc": "Seeded search over interleavings at memory-access granularity of the real library code on simulated threads, with re-entry, cancellation, buffer reuse and stale stacks. Trusts the access instrumentation of clang and the region classification of the simulator. A sample of schedules.",
    "gen": "Real generator programs run whole on a simulated disk, heap and output device. Faults are placed at sampled operation numbers (the first and last operations of every kind always). Trusts the stand-ins for stdio and the heap.",
}
TECH = {
    "main": "deterministic simulation: seeded search over inputs, deliveries, crashes and resource faults of simulated clients driving the real library, against a reference model; replayable minimised plans",
    "conc": "deterministic simulation: seeded scheduler with preemption at every memory access, re-entry and cancellation faults, compared with solo runs in a fresh process; replayable minimised schedules",
    "gen": "deterministic simulation with fault injection: whole generator processes on a simulated disk, heap and output with a seeded fault scheduler; replayable minimised plans",
}
def eng(p): return "conc" if p in ("C16", "C17") else "gen" if p in ("C19", "C20", "C21", "C22") else "main"
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i not in CLAIMED: continue
    checks.append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH[eng(i)], "level": "exploration", "level_note": NOTE[eng(i)]})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "the simulator for this property is not finished; nothing is claimed")} for p in props if p["id"] not in CLAIMED],
     "notes": "No hooks in /repo: every seam is reached by compiling the unmodified sources with instrumentation (sanitizer coverage callbacks, symbol redirection) into the simulators. Replay a violation with: python3 run.py replay FILE [--trace]."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
