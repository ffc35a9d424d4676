#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below and from the harnesses registered in check.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
SCHED = "; every schedule is generated and owned by the harness (deterministic scheduler with a C++11 memory model)"
T = {
 "C01": ("model-based stateful property testing against a reference registry", "Random histories; every reading interface compared with the model after each step. Assumes entity counts and type sets within the generated bounds."),
 "C02": ("model-based stateful property testing of handles, incl. failed calls", "Every handle ever given out is remembered; dead-handle calls must raise and change nothing. Generation wrap-around not reached."),
 "C03": ("model-based stateful testing with object ledger and allocation balance", "Each tracked component object carries a life-cycle ledger; malloc balance at the end of each case."),
 "C04": ("model-based stateful testing of views against a brute-force query over the model", "Both range back ends (std and range-v3) are built and run."),
 "C05": ("model-based stateful testing over two or more registries", "Clone/copy/move with and without reserved destinations, all registries compared afterwards."),
 "C06": ("fault injection into generated histories (throwing constructors, visitors, oversized sets)", "Faults at every generated construction point; state, counts and later operations compared with the model."),
 "C07": ("generated component sets and histories, address invariants over all live components", "Alignment, containment (ASan poisons foreign memory) and disjointness of every live component; acceptance oracle computed independently."),
 "C08": ("differential testing: recorded and flushed versus directly executed", "The reference is the same operation list executed directly on a model registry."),
 "C09": ("model-based stateful testing and generated thread schedules", "Sequential histories with pending reservations, and concurrent reservations under generated schedules."),
 "C15": ("model-based stateful testing against std::map", "Tracked keys/values, stateful functors, collision patterns, aliasing arguments."),
 "C16": ("model-based stateful testing against std::map", "8- to 64-bit keys, whole key domains for the small ones."),
 "C17": ("model-based stateful testing against std::set", "Pools of ids shared by several sets so that equal sets arise along different histories."),
 "C18": ("generated allocation sequences with address invariants and content patterns", "Exact fit, refusal, over-size, move and reset; ASan and guard bytes around the region."),
 "C10": ("generated schedules against an order model, run under a deterministic scheduler" + SCHED, "Random stages, systems, access patterns and worker counts; each run once, in stage order, with exclusive access honoured."),
 "C11": ("generated access patterns and schedules: conflict oracle, overlap monitor and happens-before race detector" + SCHED, "Pairwise conflict relation differentially tested against an independent oracle; overlap and races observed on executed schedules."),
 "C12": ("generated task trees and thread schedules with completion ledger and race detector" + SCHED, "Fork/join trees, more tasks than slots, nested waits. Load buffering is not modelled."),
 "C13": ("generated ranges, pools and schedules; each element visited exactly once" + SCHED, "parallel_for over generated ranges and par_each over generated registries, std ranges and range-v3."),
 "C14": ("generated operation histories of owner and thieves, linearisability-style ledger" + SCHED, "Sequential histories against a deque model and concurrent ones; load buffering is not modelled."),
 "C19": ("generated multi-file programs with libraries and plugins, built and run", "Each program checks its own identities against an oracle of type equality; default and hidden visibility; clang++ and g++."),
 "C20": ("generated misuse / well-formed twin programs judged by the compiler", "Oracle: the misuse is rejected, its twin accepted; both clang++ and g++."),
 "C21": ("generated thread histories of recording, ending and flushing against a per-thread order model" + SCHED, "Threads that end before the flush, threads that live on, interleaved reservations."),
}
NA_PENDING = "not claimed yet: its check is under construction"
T.update(getattr(check, "MANIFEST_EXTRA", {}))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS and i in T:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
            "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": NA_PENDING})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses include the headers of /repo/include directly. /repo carries fix: commits only (see KNOWN_FINDINGS)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
