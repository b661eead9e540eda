#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist in dst/props."""
import json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "R": "deterministic simulation: scripted random streams, executable reference model",
    "S": "deterministic simulation: seeded histories of operations with injected failures, state invariants and differential runs in pristine processes",
    "T": "deterministic simulation: seeded thread schedules at every executed line, compared with sequential execution",
    "F": "deterministic simulation: seeded interruption, allocation and I/O faults at every executed line or call, with retries",
    "U": "deterministic simulation: seeded widget event histories against a stubbed front end, with failures",
}
NOTE = {
    "R": "seeded search over data sets and random streams (seeded and scripted so that permutations repeat, tie or leave the map in place); every simulated statistic and p-value is recomputed by a small reference model that replays the same stream. Sampling, not proof; map sizes up to about 16 units.",
    "S": "seeded search over sessions of public operations; a clean batch is evidence, not proof; sessions of up to about 10 operations on small maps.",
    "T": "real threads, one running at a time; the simulator decides every switch, between any two lines executed in the library (not inside numpy/scipy calls). Sampled schedules, not all of them.",
    "F": "faults are placed uniformly over the distinct lines (or I/O calls) an operation executes; sampled, with every line of the operations reached in thorough runs.",
    "U": "the widget front end is a stub that records what it is given and delivers events; rendering is real. Sampled histories.",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
na = json.load(open(os.path.join(root, "tools", "not_applicable.json")))
nas = {d["property"] for d in na}
checks = []
for p in props:
    i = p["id"]
    if i in nas:
        continue
    if not os.path.exists(os.path.join(root, "dst", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "the check for it is still being built"})
        continue
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i,
                   "thorough_cmd": "./check %s --tier thorough" % i,
                   "technique": TECH[i[0]], "level": "exploration", "level_note": NOTE[i[0]]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
