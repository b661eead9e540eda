"""Confirms planted bugs in scratch copies of /repo.   usage: plant.py FILE.py [ID ...] [--nocheck]

FILE defines BUGS: {id: {"property", "needs", "breaks", "edits": [(file, old, new)], "demo": python text}}.
For each: patch, stable tests, demonstration on both trees; confirmed ones are kept in seeded/ and, unless
--nocheck, the property's quick check is run against the patched copy."""
import json
import os
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TMP = "/tmp/pl"
STABLE = set(map(str, json.load(open("/opt/vp/BASELINE.json"))["stable"]))
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=1200, **env):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **env))
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout + p.stderr


def one(args):
    name, b, check = args
    d = os.path.join(TMP, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = os.path.join(d, "repo")
    sh("cp -a /repo %s && cd %s && git checkout -q -- . && git clean -qfd giddy" % (r, r), "/")
    for f, old, new in b["edits"]:
        p = os.path.join(r, f)
        t = open(p).read()
        if t.count(old) != 1:
            return name, "BAD EDIT: %d matches of %r" % (t.count(old), old[:80])
        open(p, "w").write(t.replace(old, new))
    _, diff = sh("git diff", r)
    s = os.path.join(d, "seed")
    os.makedirs(s)
    open(s + "/patch.diff", "w").write(diff)
    open(s + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(s + "/demo.sh", "w").write(DEMO)
    os.chmod(s + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(s + "/meta.json", "w"), indent=1)
    env = dict(PYTHONPATH=r, PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    rc0, o0 = sh("bash %s/demo.sh" % s, "/repo", 300)
    rc1, o1 = sh("bash %s/demo.sh" % s, r, 300)
    if rc0 != 0 or rc1 == 0:
        return name, "DEMO: unpatched %d, patched %d\n%s\n---\n%s" % (rc0, rc1, o0[-800:], o1[-800:])
    pt = PY + " -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2"
    sh("mkdir -p rep; %s --junitxml=%s/unit.xml giddy; %s --doctest-only --doctest-continue-on-failure --junitxml=%s/doc.xml giddy; python3 /opt/vp/results.py %s/t.json 'junit:%s/*.xml'"
       % (pt, d, pt, d, d, d), r, **env)
    passed = set(map(str, json.load(open(d + "/t.json"))["passed"]))
    if STABLE - passed:
        return name, "TESTS: %s fail" % sorted(STABLE - passed)
    dst = os.path.join(ROOT, "seeded", name)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(s, dst)
    out = "kept (demo said: %s)" % o1.strip()[-160:]
    if check:
        ev = os.path.join(ROOT, "evidence", b["property"] + ".json")
        rc, o = sh("%s/check %s --tier quick" % (ROOT, b["property"]), ROOT, 900, VERIF_REPO=r)
        lines = [l for l in o.splitlines() if l.startswith(("run ", "VIOLATION", "property=", "HARNESS"))]
        out += "\n   check rc=%d %s\n   %s" % (rc, "CAUGHT" if rc == 1 else "*** MISSED ***", "\n   ".join(x[:260] for x in lines))
    shutil.rmtree(d, ignore_errors=True)
    return name, out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = runpy.run_path(args[0])["BUGS"]
    names = args[1:] or list(bugs)
    jobs = int(os.environ.get("JOBS", "3"))
    with ThreadPoolExecutor(jobs) as ex:
        for name, out in ex.map(one, [(n, bugs[n], "--nocheck" not in sys.argv) for n in names]):
            print("== %s [%s]: %s" % (name, bugs[name]["property"], out), flush=True)


if __name__ == "__main__":
    main()
