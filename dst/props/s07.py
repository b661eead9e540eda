import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from .. import core, observe as O, ops, rngseam as R, session as S
from ..core import Violation

ID = "S07"
PLAN = {"quick": (16, 60), "thorough": (600, 780)}
RULE = ("a run = a batch of sessions executed by three separate interpreters with different string hash seeds, allocators, heap contents, clocks (offset and rate), process ids and random-module seeds, "
        "and the same inputs and numpy random states; all results, printouts and the final random state must agree. Non-trivial: every batch; distinct by its sessions. evaluations counts batches; see probes for sessions")
STATES = "distinct sessions"
SIMTIME = "clocks of the interpreters differ by up to 30 years and run at 0.5x to 3x"
EXTRA = {}
PER = 45


def gen(rng, i, tier):
    sess = []
    for _ in range(PER):
        w = ops.gen_world(rng, ids=rng.choice(["str", "str", "intshift", "int"]))
        names = None
        if rng.random() < 0.4:
            names = ["LISA_Markov", "Spatial_Markov_discrete", "Sequence", "Markov", "Tau_Regional", "Theta"]
        s = S.gen(rng, rng.choice([1, 2, 3, 4]), tier, plots=0.08, names=names, world=w)
        sess.append(s)
    # one session with as many permutations as users ask for, one with as many units
    many = sorted(ops.MANY)
    name = many[i % len(many)]
    w = ops.gen_world(rng, n=rng.randrange(5, 8))
    first = "Rose" if name == "permute" else name
    st = [{"new": first, "a": ops.pick(rng, ops.OPS[first]["choices"]), "rng": R.gen(rng, w["n"])}]
    if name == "permute":
        st.append({"on": 0, "m": "permute", "a": {"P": 9, "alt": "two.sided"}, "rng": R.gen(rng, w["n"])})
    st[-1]["a"]["P"] = rng.choice([p for p in ops.MANY[name] if p > 1000] or ops.MANY[name])
    sess.append({"world": w, "steps": st})
    big = ["Theta", "SpatialTau", "Rose", "Spatial_Markov", "LISA_Markov", "Markov", "FullRank_Markov", "Tau", "shuffle_matrix", "Spatial_Markov_discrete", "GeoRank_Markov", "Tau_Regional"]
    w = ops.gen_world(rng, n=rng.choice([64, 130, 260]))
    s = S.gen(rng, 3, tier, plots=0.0, names=[big[i % len(big)], big[(i * 5 + 3) % len(big)]], world=w, methods=0.3)
    for st in s["steps"]:
        if st["a"].get("P"):
            st["a"]["P"] = rng.choice([1, 2])
    sess.append(s)
    env = lambda: {"clock": rng.uniform(-5e8, 5e8), "rate": rng.choice([0.5, 1.0, 3.0]), "pid": rng.randrange(2, 4000000),
                   "junk": rng.randrange(1 << 30), "heap": rng.choice([0, 100, 5000]),
                   "hash": str(rng.randrange(1, 1 << 31)), "malloc": rng.choice(["pymalloc", "malloc", "pymalloc"])}
    e = [env() for _ in range(3)]
    e[0]["hash"] = "0"
    return {"sessions": sess, "envs": e}


def start(d, s, e, k):
    a, b = os.path.join(d, "in%d" % k), os.path.join(d, "out%d" % k)
    with open(a, "w") as f:
        json.dump({"sessions": s["sessions"], "env": e}, f)
    env = dict(os.environ, PYTHONHASHSEED=e["hash"], PYTHONMALLOC=e["malloc"])
    p = subprocess.Popen([sys.executable, "-B", "-m", "dst.twin", a, b], env=env, cwd=core.ROOT,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p, b


def run(s, ctx):
    d = tempfile.mkdtemp(prefix="dst-s07-")
    try:
        outs = []
        ps = [start(d, s, e, k) for k, e in enumerate(s["envs"])]
        for p, b in ps:
            _, err = p.communicate(timeout=300)
            if p.returncode:
                raise RuntimeError("interpreter failed: " + err.decode()[-2000:])
            with open(b, "rb") as f:
                outs.append(pickle.load(f))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for c, other in enumerate(outs[1:], 1):
        for j, (x, y) in enumerate(zip(outs[0], other)):
            for st, g, w in zip(s["sessions"][j]["steps"], x, y):
                if g is None or w is None:
                    bad = None if g is w else "one of them failed"
                else:
                    bad = O.diff(O.canon(g[0]), O.canon(w[0]), S.label(st), rtol=1e-7)
                    if bad is None and g[1] != w[1]:
                        bad = "%s printed %r / %r" % (S.label(st), g[1][:300], w[1][:300])
                    if bad is None and g[2] != w[2]:
                        bad = "%s left the random stream in different states" % S.label(st)
                if bad:
                    raise Violation("not-reproducible", "session %d: %s  (hash seeds %s and %s)" % (
                        j, bad, s["envs"][0]["hash"], s["envs"][c]["hash"]))
    for se in s["sessions"]:
        for st in se["steps"]:
            ctx.hit("op:" + S.label(st))
        ctx.state([(S.label(st), st.get("a"), st.get("rng")) for st in se["steps"]])
    ctx.hit("sessions compared", len(s["sessions"]))
    ctx.hit("fault:interpreter with other hash seed, clock, pid and heap", len(s["envs"]) - 1)
    ctx.nontrivial = True
    ctx.sig = [h["hash"] for h in s["envs"]] + [[S.label(st) for st in se["steps"]] for se in s["sessions"]]
    ctx.event([[r and (O.sig(O.canon(r[0])), r[2]) for r in x] for x in outs[0]])


def shrink(s):
    n = len(s["sessions"])
    if n > 1:
        for k in range(0, n, max(1, n // 8)):
            yield dict(s, sessions=s["sessions"][k:k + max(1, n // 8)])
        return
    if len(s["envs"]) > 2:
        for k in (1, 2):
            yield dict(s, envs=[s["envs"][0], s["envs"][k]])
    for c in S.shrink(s["sessions"][0]):
        yield dict(s, sessions=[c])
