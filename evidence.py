"""Run a property's simulator and write its evidence file."""
import json, os, subprocess, time

import run

ASSUME = {
    "gen": ["the C library's stdio is correct", "a well-formed database keeps the invariants the Unicode data files keep (disjoint values per property, first comment word is the general category, at most 60 bracket pairs); files that break them are not generated",
            "the parser of the emitted tables in sim/gen.cpp reads C initialisers of integers as a compiler would", "the search is a sample: seeds that were not run are not covered"],
    "conc": ["clang's instrumentation reports every load and store of the library at -O0; stand-ins report those of mem* calls", "interleavings are sequentially consistent at the granularity of memory accesses and basic blocks", "the search is a sample: seeds that were not run are not covered"],
    "main": ["the reference models in sim/model.cpp state Unicode 15.0 (UAX #9, #14 with the number tailoring, #29, Unicode ch. 3.13) correctly; their truth data is the committed sim/ucd_tables.h, derived once from the Unicode data files by tools/mkucd.py with a parser of its own",
             "clang's address sanitizer sees out-of-bounds accesses up to its redzones (guard zones of at least 64 bytes around every caller buffer)",
             "the search is a sample: seeds that were not run are not covered"],
}
RULE = {
    "C01": "one run = one byte stream, a lossy network that cuts it into packets, and a reader that keeps incomplete tails; non-trivial counts distinct (byte-class window, delivery split) states in which a decode was compared with the model",
    "C02": "one run = a sequence of 32-bit values written through bounded sinks that fill up and lose flushes; non-trivial counts distinct (value class, capacity, fault) states",
    "C03": "one run = up to three texts interleaved call by call with persist/restore/reset of the break state; non-trivial counts distinct (state word class, class pair, verdict) states",
    "C04": "one run = one text, a network schedule with faults, and a consumer that crashes and restarts at boundaries, every call compared with the model; non-trivial counts distinct (representation, class window around the break, segment length) states",
    "C08": "one run = one received buffer walked by consumers that restart at arbitrary codepoints; non-trivial counts distinct (kind, buffer shape, class window) states",
    "C09": "one run = one text and a caller that sizes, allocates (possibly failing) and retries; non-trivial counts distinct (case, representation, leading case classes, length) states",
    "C11": "one run = one text arriving over the network, detection compared with conversion at every arrival; non-trivial counts distinct (case, representation, verdict, first difference, class) states",
    "C12": "one run = one received byte buffer, all UTF-8 functions compared with the plain functions on the decoded text; non-trivial counts distinct (function, class window, damage) states",
    "C13": "one run = one text with paragraphs, an override and a history of line divisions, levels compared with UAX #9; non-trivial counts distinct (level pattern, class window) states",
    "C14": "one run = one text and a history of line slices, reordering compared with rule L2; non-trivial counts distinct (level pattern, line shape) states",
    "C15": "one run = one text and a history of capacities and failed allocations; non-trivial counts distinct (function, capacity relation, level pattern) states",
    "C16": "one run = up to four simulated threads executing library calls under a seeded scheduler with preemption at memory accesses, re-entry and cancellation; non-trivial counts distinct interleaving signatures (hash of the sequence of task switches and the code location and access index each happened at)",
    "C17": "one run = a history of library calls with every load, store and allocation of the library classified by the simulator; non-trivial counts distinct (function, access kind, region, capacity relation) states",
    "C18": "one run = one text with a terminator placed by the plan, every function called in both length modes; non-trivial counts distinct (function, position of terminator, final bytes) states",
    "C19": "one run = one complete table generator process on a simulated disk, heap and output with scheduled faults; non-trivial counts distinct (generator, fault kind, operation number bucket, outcome) states",
    "C21": "one run = one complete test generator process on a simulated disk holding conformance tests written by the plan; non-trivial counts distinct (generator, test shape, description length) states",
    "C22": "one run = one complete generator process on a simulated disk whose stored data was damaged at one sampled place; non-trivial counts distinct (generator, damage kind, outcome, place) states",
    "C20": "one run = one complete table generator process on a simulated disk holding a character database written by the plan; non-trivial counts distinct (generator, class, block shape) states",
}
for a, b in (("C05", "C04"), ("C06", "C04"), ("C07", "C04"), ("C10", "C09")):
    RULE[a] = RULE[b]
REAL = {"main": ["src/*.c of /repo, complete", "gen/*.c of /repo and /repo/data (tables of the library under test are generated by them for this run)"],
        "conc": ["src/*.c of /repo, complete, each memory access a scheduling point"],
        "gen": ["gen/*.c of /repo, complete, entered through their main()"]}
STUB = {"main": ["network, storage, client processes, caller's allocator and clock are simulated"],
        "conc": ["threads are fibers switched by the simulator", "signal delivery is a nested call on the interrupted fiber", "cancellation is longjmp out of the call", "malloc/free and mem* called by the library are recorded stand-ins"],
        "gen": ["open/read/close below stdio for the data files (simulated disk holding /repo/data or the files written by the plan)", "write/close below stdio for standard output (simulated device)", "malloc/calloc/realloc/free (guarded stand-in heap behind a fault scheduler)", "stdio itself is the real C library"]}
# seconds of search: quick, thorough; smallest number of runs (covers all codepoint sweeps)
TIME = {"quick": 15, "thorough": 420}
SLOW = {"C13": 20, "C16": 22, "C18": 20, "C19": 28, "C20": 30, "C22": 28}  # quick checks of slower worlds
MINRUNS = 4000
GEN_MINRUNS = 1000
FAULTS = ["net_drop", "net_duplicate", "net_bitflip", "net_reorder", "net_truncate", "net_stall", "net_short_read", "consumer_crash_restart",
          "stored_byte_corruption", "sink_full", "alloc_failure", "short_allocation", "lost_flush", "preemption", "reentry", "cancellation",
          "buffer_reuse", "open_failure", "read_error", "short_read", "close_failure", "write_error", "no_space", "short_write", "malloc_failure"]


def engine(prop):
    return "conc" if prop in ("C16", "C17") else "gen" if prop in run.GEN_PROPS else "main"


def level(prop):
    return "exploration"


def run_check(prop, tier, unlock):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    exe = run.executable(prop)
    unlock()
    replays = os.path.join(run.VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(run.VERIF, "evidence"), exist_ok=True)
    raw = os.path.join(run.BUILD, "raw-%s-%d.json" % (prop, os.getpid()))
    known = run.known(prop)
    secs = float(os.environ.get("GSIM_SECONDS", SLOW.get(prop, TIME[tier]) if tier == "quick" else TIME[tier]))
    workers = os.environ.get("GSIM_WORKERS", str(min(8, os.cpu_count() or 8)))
    cmd = exe + ["check", prop, "--seed", str(seed), "--seconds", "%g" % secs, "--min-runs", str(GEN_MINRUNS if engine(prop) == "gen" else MINRUNS), "--workers", workers,
                 "--out", raw, "--replays", replays, "--known", ",".join(known)]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace")
    hit = []
    for l in p.stdout.splitlines():
        if l.startswith("KNOWN "):
            i = l.split()[1]
            hit.append(i)
            print("KNOWN-FINDING: property=%s %s" % (prop, known.get(i, i)))
        else:
            print(l)
    if p.returncode not in (0, 1) or not os.path.exists(raw):
        print("check of %s ended abnormally (%d)" % (prop, p.returncode))
        return 3
    with open(raw) as f:
        d = json.load(f)
    os.unlink(raw)
    c = d["counters"]
    e = engine(prop)
    wall = max(d["wall_s"], 1e-6)
    cov = {
        "evaluations": c["runs"],
        "distinct_nontrivial": d["distinct_states"],
        "rule": RULE[prop] + "; counted by one bit per hashed state, so a lower bound",
        "samples": d["samples"],
        "oracle_comparisons": c["oracle_checks"],
        "library_calls": c["api_calls"],
        "runs_per_hour": round(c["runs"] / wall * 3600),
        "seeds_per_hour": round(c["runs"] / wall * 3600),
        "simulated_seconds": round(c["simulated_us"] / 1e6, 3),
        "faults_injected": {k: c[k] for k in FAULTS if c[k]},
        "probes_hit": {k: v for k, v in c.items() if v and k not in FAULTS and k not in ("runs", "api_calls", "oracle_checks", "simulated_us")},
        "runs_repeated_for_determinism": d["replayed_twice"],
        "components_real": REAL[e], "components_simulated": STUB[e],
        "known_findings_seen": hit,
        "repo_tree": run.repo_digest(),
    }
    if d.get("codepoints_seen"):
        cov["codepoints_in_compared_calls"] = d["codepoints_seen"]
    if d.get("edges_total"):
        cov["library_edges_reached"] = d["edges_hit"]
        cov["library_edges_total"] = d["edges_total"]
    for k in ("extra",):
        if k in d:
            cov.update(d[k])
    if "violation" in d:
        cov["violation"] = d["violation"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level(prop), "coverage": cov,
          "assumptions": ASSUME.get(e, ASSUME["main"]), "wall_s": round(time.time() - t0, 3), "violations": d["violations"]}
    with open(os.path.join(run.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    return p.returncode
