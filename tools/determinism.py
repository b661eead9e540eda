"""usage: python3 tools/determinism.py [RUNS] [ID...]
Runs every check twice from the same seed, with different numbers of worker processes, and compares the digests of
all event logs.  A difference means that some source of nondeterminism is not under the simulator's control."""
import json
import os
import subprocess
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
runs = sys.argv[1] if len(sys.argv) > 1 else "150"
ids = sys.argv[2:] or [c["property"] for c in json.load(open(here + "/MANIFEST.json"))["checks"]]
bad = 0
for p in ids:
    out = []
    for jobs in ("8", "3"):
        subprocess.run([here + "/check", p, "--runs", runs, "--jobs", jobs], stdout=subprocess.DEVNULL)
        e = json.load(open("%s/evidence/%s.json" % (here, p)))["coverage"]
        out.append((e["outcome_digest"], e["evaluations"]))
    same = out[0] == out[1]
    bad += not same
    print(p, "same" if same else "DIFFERENT %s" % out, out[0], flush=True)
sys.exit(bool(bad))
