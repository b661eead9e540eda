"""Seeded runner: forks one pristine process per simulated run, collects results, minimises and
replays failures, writes evidence.  Nothing here draws random numbers except from Random(seed)."""
import atexit
import gc
import hashlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
RUN_LIMIT = 60.0       # seconds a single simulated run may take before it counts as hung


def scratch():
    """A directory for files of the simulated sessions, removed when the check ends."""
    d = os.environ.get("VERIF_SCRATCH")
    if not d:
        d = os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="dst-")
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, ignore_errors=True))
    return d


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, msg, **info):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg
        self.info = info


class Ctx:
    """What a run reports besides its verdict."""

    def __init__(self):
        self.count = {}      # counters: fault kinds fired, probes hit, ...
        self.states = set()  # signatures of distinct states / interleavings reached
        self.nontrivial = False
        self.sig = []        # what identifies this run as distinct
        self.log = []        # event log (digest is compared by the determinism tool)
        self.notes = {}

    def hit(self, name, n=1):
        self.count[name] = self.count.get(name, 0) + n

    def state(self, *what):
        self.states.add(h(what))

    def event(self, *what):
        self.log.append(repr(what))


def h(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def dump(x):
    return json.dumps(x, sort_keys=True)


def from_library(e):
    """An exception that came out of a call of the system under test, which no property allows for."""
    if not isinstance(e, Exception) or isinstance(e, (MemoryError, OSError)):
        return False
    from .boot import G
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    lib = [i for i, f in enumerate(files) if f.startswith(G.get("root", "\0"))]
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    return bool(lib) and not any(os.path.abspath(f).startswith(here) for f in files[lib[-1]:])


def _child(mod, scen, wfd):
    """Runs one scenario in a forked process and writes its result to wfd."""
    ctx = Ctx()
    res = {}
    try:
        try:
            mod.run(scen, ctx)
            res["ok"] = True
        except Violation as v:
            res["violation"] = {"kind": v.kind, "msg": v.msg[:2000]}
            ctx.event("violation", v.kind, v.msg)
    except BaseException as e:
        if from_library(e):
            res["violation"] = {"kind": "exception", "msg": ("the library raised %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))[-2000:]}
            ctx.event("violation", "exception", type(e).__name__)
        else:
            res["harness_error"] = traceback.format_exc()[-4000:]
    res["count"] = ctx.count
    res["states"] = sorted(ctx.states)
    res["nontrivial"] = bool(ctx.nontrivial)
    res["sig"] = h(ctx.sig) if ctx.sig else None
    res["digest"] = h(ctx.log)
    res["notes"] = ctx.notes
    data = dump(res).encode()
    try:
        n = 0
        while n < len(data):
            n += os.write(wfd, data[n:])
    finally:
        os._exit(0)


class Job:
    def __init__(self, mod, key, scen, limit):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setsid()
                dn = os.open(os.devnull, os.O_RDWR)
                os.dup2(dn, 0)
                os.dup2(dn, 1)
                signal.signal(signal.SIGINT, signal.default_int_handler)
                _child(mod, scen, w)
            finally:
                os._exit(3)
        os.close(w)
        self.pid, self.r, self.key, self.scen = pid, r, key, scen
        self.buf = []
        self.deadline = time.monotonic() + limit

    def close(self):
        os.close(self.r)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        _, st = os.waitpid(self.pid, 0)
        return st

    def result(self, hung=False):
        st = self.close()
        if hung:
            return {"hung": True}
        try:
            return json.loads(b"".join(self.buf))
        except ValueError:
            return {"crashed": st}


def pool(mod, items, jobs=8, limit=RUN_LIMIT, stop=None):
    """items: iterable of (key, scenario); yields (key, scenario, result) as they finish."""
    it = iter(items)
    live = {}
    more = True
    while True:
        while more and len(live) < jobs and not (stop and stop()):
            try:
                key, scen = next(it)
            except StopIteration:
                more = False
                break
            j = Job(mod, key, scen, limit)
            live[j.r] = j
        if not live:
            return
        ready, _, _ = select.select(list(live), [], [], 0.2)
        now = time.monotonic()
        for fd in list(live):
            j = live[fd]
            if fd in ready:
                d = os.read(fd, 1 << 20)
                if d:
                    j.buf.append(d)
                    continue
                del live[fd]
                yield j.key, j.scen, j.result()
            elif now > j.deadline:
                del live[fd]
                yield j.key, j.scen, j.result(hung=True)


def run_one(mod, scen, limit=RUN_LIMIT):
    for _, _, r in pool(mod, [(0, scen)], jobs=1, limit=limit):
        return r


def vkind(res):
    """Violation class of a result, or None."""
    if "violation" in res:
        return res["violation"]["kind"]
    if res.get("hung"):
        return "hang"
    if "crashed" in res:
        return "process-died"
    return None


def scenario(mod, seed, i, tier):
    rng = random.Random("%s/%s/%s" % (seed, mod.ID, i))
    s = mod.gen(rng, i, tier)
    return json.loads(dump(s))


def _size(s):
    return len(dump(s))


def minimise(mod, scen, kind, budget=25.0, log=None):
    """Greedy: take any smaller scenario that still fails in the same way."""
    end = time.monotonic() + budget
    steps = 0
    if not hasattr(mod, "shrink"):
        return scen, steps
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        for cand in mod.shrink(json.loads(dump(scen))):
            if time.monotonic() > end:
                break
            cand = json.loads(dump(cand))
            if dump(cand) == dump(scen):
                continue
            steps += 1
            if vkind(run_one(mod, cand, limit=20.0)) == kind:
                scen = cand
                improved = True
                break
    return scen, steps


def load_known():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                d = dict(t.split("=", 1) for t in line[7:].split(" ") if "=" in t)
                d["line"] = line
                out.append(d)
    return out


def write_replay(mod, scen, seed, i, kind, msg, original=None):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (mod.ID, h([mod.ID, kind, scen]))
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump({"property": mod.ID, "seed": seed, "run": i, "kind": kind, "message": msg,
                   "scenario": scen}, f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def confirm(mod, path):
    """Replays the file in a fresh interpreter; true if it fails in the same way."""
    cmd = [os.path.join(ROOT, "check"), mod.ID, "--replay", path]
    out = ""
    for _ in range(2):
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=130)
        except subprocess.TimeoutExpired:
            out = "replay timed out"
            continue
        if p.returncode == 1:
            return True, ""
        out = p.stdout[-1500:] + p.stderr[-1500:]
    return False, out


def main_replay(mod, path):
    with open(path) as f:
        rep = json.load(f)
    res = run_one(mod, rep["scenario"])
    k = vkind(res)
    if k == "hang":
        k = vkind(run_one(mod, rep["scenario"], limit=RUN_LIMIT * 2))
    if k is None:
        if "harness_error" in res:
            print("HARNESS ERROR\n" + res["harness_error"])
            return 2
        print("replay: property=%s holds (recorded violation: %s)" % (mod.ID, rep.get("kind")))
        return 0
    same = k == rep.get("kind")
    print("replay: %s%s: %s" % (k, "" if same else " (recorded: %s)" % rep.get("kind"),
                                res.get("violation", {}).get("msg", "")))
    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
    return 1


def main_check(mod, tier, seed, runs=None, jobs=None, quiet=False):
    t0 = time.monotonic()
    jobs = jobs or min(8, os.cpu_count() or 8)
    plan = mod.PLAN[tier]            # (number of runs, seconds after which no new run starts)
    total = runs or plan[0]
    budget = plan[1]
    gc.collect()
    gc.freeze()
    print("simulating property=%s seed=%d tier=%s runs<=%d jobs=%d" % (mod.ID, seed, tier, total, jobs))
    bad, errs = [], []
    ev, nontriv, sigs, states = 0, 0, set(), set()
    count, samples, notes = {}, [], {}
    digests = {}
    first_fail = [None]

    def stop():
        return time.monotonic() - t0 > budget or (len(bad) >= 6) or len(errs) >= 3

    def items():
        for i in range(total):
            yield i, scenario(mod, seed, i, tier)

    for i, scen, res in pool(mod, items(), jobs, stop=stop):
        ev += 1
        k = vkind(res)
        if k in ("hang", "process-died"):
            # once more, alone and with more time, before believing it
            res2 = run_one(mod, scen, limit=RUN_LIMIT * 2)
            k = vkind(res2)
            res = res2
        if k is not None:
            bad.append((i, k, scen, res))
            continue
        if "harness_error" in res:
            errs.append((i, res["harness_error"]))
            continue
        digests[i] = res["digest"]
        for a, b in res["count"].items():
            count[a] = count.get(a, 0) + b
        states.update(res["states"])
        if res["nontrivial"]:
            nontriv += 1
            sigs.add(res["sig"] or h(scen))
            if len(samples) < 3 and _size(scen) < 6000:
                samples.append(scen)
        notes.update(res.get("notes", {}))
    wall_sim = time.monotonic() - t0
    rc = 0
    reported = []
    known = load_known()
    bad.sort(key=lambda b: b[0])
    seen = set()
    for i, k, scen, res in bad:
        if k in seen or len(seen) >= 2:
            continue
        seen.add(k)
        msg = res.get("violation", {}).get("msg", k)
        small, steps = minimise(mod, scen, k, budget=25.0 if tier == "quick" else 90.0)
        r2 = run_one(mod, small)
        msg2 = r2.get("violation", {}).get("msg", msg)
        hit = [d for d in known if d.get("property") == mod.ID and d.get("kind") == k
               and (d.get("contains", "").replace("~", " ") in msg2)]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (mod.ID, hit[0]["line"]))
            continue
        path = write_replay(mod, small, seed, i, k, msg2)
        ok, out = confirm(mod, path)
        if not ok:
            path = write_replay(mod, scen, seed, i, k, msg)
            ok, out = confirm(mod, path)
        print("run %d (seed %d): %s: %s" % (i, seed, k, msg2))
        print("minimised in %d steps to %s" % (steps, path))
        if not ok:
            print("HARNESS ERROR: the violation did not replay in a fresh process\n" + out)
            rc = max(rc, 2) if rc != 1 else 1
            continue
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        reported.append(path)
        rc = 1
    if errs and rc == 0:
        rc = 2
    for i, e in errs[:2]:
        print("HARNESS ERROR in run %d:\n%s" % (i, e))
    wall = time.monotonic() - t0
    faults = {a[6:]: b for a, b in sorted(count.items()) if a.startswith("fault:")}
    probes = {a: b for a, b in sorted(count.items()) if not a.startswith("fault:")}
    cover = {
        "evaluations": ev,
        "distinct_nontrivial": len(sigs),
        "rule": mod.RULE,
        "samples": samples,
        "nontrivial_runs": nontriv,
        "runs_per_hour": int(ev / max(wall_sim, 1e-9) * 3600),
        "simulated_time": getattr(mod, "SIMTIME", "none: the code under test reads no clock and sets no timer; "
                                  "runs are measured in steps (see probes)"),
        "faults_injected": faults,
        "probes": probes,
        "distinct_states": len(states),
        "state_measure": getattr(mod, "STATES", "distinct observed results"),
        "real_components": getattr(mod, "REAL", REAL),
        "stubbed_components": getattr(mod, "STUB", STUB),
        "replays": reported,
        "outcome_digest": h(sorted(digests.items())),
    }
    cover.update(getattr(mod, "EXTRA", {}))
    evd = {"property": mod.ID, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
           "coverage": cover, "assumptions": getattr(mod, "ASSUME", []) + ASSUME,
           "wall_s": round(wall, 2), "violations": len(bad)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, mod.ID + ".json"), "w") as f:
        json.dump(evd, f, indent=1, sort_keys=True)
        f.write("\n")
    print("property=%s: %d runs, %d distinct non-trivial, %d states, faults %s, %.1f s, %s" % (
        mod.ID, ev, len(sigs), len(states), faults, wall,
        {0: "no violation", 1: "VIOLATED", 2: "HARNESS ERROR"}[rc]))
    return rc


REAL = ["all of giddy (imported from /repo)", "numpy incl. its legacy generator", "scipy", "libpysal weights",
        "esda local Moran", "mapclassify", "quantecon"]
STUB = ["numba (esda's kernels run interpreted; the private generator inside its conditional randomisation "
        "is a RandomState seeded from the simulated global stream)"]
ASSUME = ["numpy, scipy, libpysal, esda, mapclassify, quantecon and matplotlib behave as installed"]
