#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(__file__), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NA = {
    "C20": "A statistical comparison of hit ratios on published traces: no schedule, clock or fault decides it, and the traces are not here. The policy's qualitative guarantees are C15 and C19.",
    "C21": "A pure function of the constructor's arguments: no schedule, clock, fault or interleaving to simulate.",
}
NOTE = {
    "C01": "Linearizability checker per key against a register that may lose its value by eviction (never, in caches with room).",
    "C02": "Intervals during which callers hold the right to load, from the recorded history.",
    "C03": "Deadlock and livelock detection: once faults stop, scheduling is fair and everything has to end within 60000 steps; then every key is loaded once more.",
    "C04": "Waiters seen waiting when a value was delivered, and loads per key, from the recorded history.",
    "C05": "The simulated clock; time spent parked is measured by the simulator.",
    "C06": "A hostile executor cancels, polls spuriously and changes wakers at seeded points; C03's and C04's demands on everyone else.",
    "C07": "weight() looked at from concurrent tasks, and the resident items at rest.",
    "C08": "Every lifecycle callback recorded with the call it happened in; every value accounted for at the end.",
    "C09": "is_pinned answers and weights recorded up to the eviction callback; pins toggled by other tasks; termination as in C03.",
    "C10": "Lookups of every key compared with len, weight, is_empty, iter and drain at rest, after each phase; answers given meanwhile are bounded by the recorded history.",
    "C11": "Caches with room: no eviction at all; tight ones with one writer at a time: a map model judges every eviction.",
    "C12": "Live keys and values counted by their constructors and destructors at rest; bytes held counted by the allocator under long churn; when the cache is gone every block it allocated is freed.",
    "C13": "Loaders, end_request and destructors that re-enter the cache; deadlock detection.",
    "C14": "hits() and misses() at rest against the recorded results of the gets; in the build with feature stats.",
    "C15": "The same history with and without added observers on other tasks: results and evictions compared.",
    "C16": "Linearizability of bulk operations against the recorded predicate calls, with predicate panics; C04's demand on waiters.",
    "C17": "Guard insertions against the recorded invalidations; linearizability.",
    "C18": "A map model followed call by call, with loader errors and panics, dropped guards, panicking predicates and abandoned drains as faults.",
    "C23": "One task is stopped at a seeded point until all the others that can are done; whoever is left must have been waiting for that key's load or that shard.",
    "C22": "Miri is the simulator: it interprets the unhooked library and its locks; one seed decides workload, preemptions, stale reads, addresses and clock; its detector of undefined behaviour is the oracle.",
    "C19": "Seeded scans by several tasks; premises verified on the recorded history, then no eviction of protected items.",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash bin/check.sh {i} quick",
        "thorough_cmd": f"bash bin/check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation: seeded schedules and faults over the real code, " + ("interpreted by Miri with weak memory emulation, which reports undefined behaviour" if i == "C22" else "history checked by an oracle"),
        "level": "exploration",
        "level_note": NOTE[i] + " Sampled, not exhaustive; aliasing models are not judged; parking_lot_core's futex parker is replaced." if i == "C22" else NOTE[i] + " Sampled, not exhaustive; sequentially consistent; locks, clock and parking are simulated, the rest is the real code in a debug and a release build.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash bin/build.sh",
    "hooks": {
        "guard": "--cfg quick_cache_sim",
        "enable": "sim/.cargo/config.toml passes --cfg quick_cache_sim to rustc for the whole build of /verif/sim, which has a path dependency on /repo",
        "source_commits": ["8dd0c99", "a379f42"],
    },
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "Replay a violation: bash bin/replay.sh <file>. Known findings: known-findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
