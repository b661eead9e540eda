"""usage: tools/recheck.py [ID ...]   Runs each planted bug's check against a scratch copy of /repo with the bug applied."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")


def one(name):
    d = "/tmp/pl-recheck/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = d + "/repo"
    try:
        subprocess.run("cp -a /repo %s && cd %s && git checkout -q -- . && git apply %s/%s/patch.diff" % (r, r, SEED, name), shell=True, check=True)
        p = json.load(open("%s/%s/meta.json" % (SEED, name)))["property"]
        c = subprocess.run(["./check", p], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r))
        line = [x for x in c.stdout.splitlines() if x.startswith("run ")] or c.stdout.splitlines()[-1:]
        return name, p, c.returncode == 1 and ("VIOLATION property=%s " % p) in c.stdout, line[0][:230], c.stdout.splitlines()[-1][:60]
    finally:
        shutil.rmtree(d, ignore_errors=True)


names = sys.argv[1:] or sorted(os.listdir(SEED))
out = {}
with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
    for n, p, ok, line, last in ex.map(one, names):
        print(n, "caught" if ok else "MISSED", "|", line, "|", last, flush=True)
