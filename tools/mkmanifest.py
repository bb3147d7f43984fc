#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("deterministic simulation: seeded interleavings of a simulated OpenMP team against the one-worker execution of the same faulty history",
         "refinement against the sequential execution of the real code, sampled schedules"),
 "C02": ("deterministic simulation: seeded preemption at every memory access with happens-before race detection and a checked simulated heap",
         "vector-clock races, invalid/double frees, out-of-bounds of heap blocks, leaks of track memory on sampled schedules; stack and global bounds only as far as the checked heap sees them"),
 "C03": ("deterministic simulation: concurrent callers under a seeded scheduler, linearizability of the recorded history against sequential runs of the real code",
         "every order respecting real time is tried by replaying the real code; bursts of at most five calls"),
 "C04": ("deterministic simulation: bounded-steps progress and deadlock detection under seeded schedules and dense adversarial populations",
         "progress within a polynomial step budget on sampled inputs and schedules"),
 "C05": ("deterministic simulation: seeded faulty sensor histories, every update refined against an executable model enumerating all joint associations",
         "independent model of the Bayes update; scans where pruning makes two outcomes legitimate are compared within the resulting interval"),
 "C06": ("deterministic simulation: seeded histories with clock jumps and stalls, every time step refined against an executable motion model",
         "independent model of the motion; sampled histories"),
 "C07": ("deterministic simulation: seeded faulty sensor histories, created tracks refined against an executable birth model",
         "independent model; reports whose share is within rounding of the threshold are ambiguous"),
 "C08": ("deterministic simulation: identity ledger over seeded histories, parallel births and concurrent callers",
         "sampled histories and schedules"),
 "C09": ("deterministic simulation: invariants on the whole population after every operation under seeded faults and extreme parameters",
         "sampled histories"),
 "C10": ("deterministic simulation: spatial index and every query checked against the recorded tracks after each step of seeded faulty histories",
         "independent geometry with a guard band at box edges"),
 "C11": ("deterministic simulation: same seeded history with and without observations under the same simulated schedule, compared bit for bit",
         "sampled histories; the random stream is held equal"),
 "C12": ("deterministic simulation: same seeded history with permuted delivery and different simulated heap layouts",
         "sampled permutations and layouts"),
 "C13": ("deterministic simulation: two worlds in one tracker against two trackers under seeded interleavings",
         "sampled histories"),
 "C14": ("deterministic simulation: bounded liveness, recovery within a fixed number of scans once seeded sensor faults stop",
         "bounds hold for the sampled parameter ranges stated in DESIGN.md"),
 "C15": ("deterministic simulation: metrics and density of seeded faulty histories against independent definitions",
         "density within sampling error (a fixed multiple of its standard deviation)"),
 "C16": ("deterministic simulation: seeded allocation failures inside operations, invariants and continued use afterwards",
         "failing operator new/malloc of the repository's code at sampled points"),
 "C17": ("deterministic simulation: spatial index on a simulated disk with seeded short, torn, failing and lost writes, full disk and failing or truncated reads",
         "sampled trees and fault points; the C stdio calls are replaced by the simulated disk"),
 "C18": ("deterministic simulation: application facade on a simulated event loop and worker pool with seeded completion order, errors, cancellations and stalls",
         "sampled schedules; tracker replaced by a recording stub"),
 "C19": ("deterministic simulation: the real Python module under a simulated interpreter lock and seeded thread schedules with invalid arguments and damaged stored values, refined against the C++ tracker called directly",
         "every result against the C++ tracker; overlapping calls against up to 300 orders of them; sampled histories and schedules"),
 "C20": ("deterministic simulation: several ranked generators and solvers used in turns and by simulated workers and callers under seeded schedules and failing allocations, refined against an independent ranking",
         "independent enumeration (small matrices) or ranking by constrained Hungarian solutions; sampled matrices, schedules and failing allocations"),
}
NA = {}
done = [p for p in sorted(T) if p not in NA]
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
skip = os.environ.get("NOTYET", "").split()
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "none", "enable": "no hooks: the code under test is compiled unmodified against sim/ (simulated OpenMP runtime, locks, heap, random device, disk)", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                 "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in props if p in T and p not in skip],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in T or p in skip]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
