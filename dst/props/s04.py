from .. import faults as F, observe as O, ops, rngseam as R, session as S
from ..core import Violation

ID = "S04"
PLAN = {"quick": (2100, 60), "thorough": (25000, 850)}
RULE = ("a run = a few analysis objects alive together and a random order of method calls, lazy attribute reads, plots and other analyses; after each step every object's observed attributes "
        "equal those at construction, and every value, figure and printout equals what a freshly built equal object gives. "
        "Non-trivial: a method was called or attribute read on an object with a history; distinct by the sequence")
STATES = "distinct (class, set of methods already called, method) triples"
SUMMARY_ONLY = {"Homogeneity_Results": ("class_names",)}
KINDS = ["Rose", "Rose", "Rose", "Spatial_Markov", "Spatial_Markov", "Spatial_Markov_discrete", "LISA_Markov", "Markov",
         "FullRank_Markov", "GeoRank_Markov", "homogeneity", "Theta", "SpatialTau", "Tau_Local_Neighbor", "Sequence", "Tau_Regional"]


def gen(rng, i, tier):
    w = ops.gen_world(rng)
    n = w["n"]
    steps, cls = [], {}
    total = rng.choice([4, 6, 8, 10, 14])
    while len(steps) < total:
        j = len(steps)
        if j == 0 or (len(cls) < 3 and rng.random() < 0.25):
            name = rng.choice(KINDS[:11]) if j == 0 else rng.choice(KINDS)
            steps.append({"new": name, "a": ops.pick(rng, ops.OPS[name]["choices"]), "rng": R.gen(rng, n)})
            c = ops.result_class(name)
            cls[j] = c
        elif rng.random() < 0.1:
            steps.append(ops.gen_new(rng, n))
        else:
            t = rng.choice(sorted(cls))
            c = ops.gen_on(rng, n, t, cls[t])
            if c is None:
                steps.append(ops.gen_new(rng, n))
                continue
            if c["m"] == "composite" and rng.random() > 0.12:
                continue
            if ops.plots(c, cls[t]) and c["m"] != "composite" and rng.random() > 0.5:
                continue
            steps.append(c)
    return {"world": w, "steps": steps}


def state(o):
    return dict(O.public(o, skip=SUMMARY_ONLY.get(type(o).__name__, ()) + ("w",)))


def fresh(s, i, st):
    """What the step gives on a freshly constructed equal object."""
    def go():
        W = ops.World(s["world"])
        res, _ = ops.step_result(W, s["steps"][i], [])
        out, txt = ops.step_result(W, dict(st, on=0), [res])
        return ops.snap(out, lazy=st["m"] != "get:ht"), txt
    return F.forked(go)


def run(s, ctx):
    W = ops.World(s["world"])
    objs, born, did = [], {}, {}
    for j, st in enumerate(s["steps"]):
        if S.skip(st, objs):
            objs.append(None)
            continue
        res, txt = ops.step_result(W, st, objs)
        objs.append(res)
        what = S.label(st)
        if "on" in st:
            i = st["on"]
            cname = type(objs[i]).__name__
            if st["m"] != "permute":
                want, wtxt = fresh(s, i, st)
                got = ops.snap(res, lazy=st["m"] != "get:ht")
                d = O.diff(O.canon(got), O.canon(want), "%s.%s" % (cname, what))
                if d is None and txt != wtxt and not (st["m"].startswith("get:") and st["m"] in did[i]):
                    d = "%s.%s printed %r, expected %r" % (cname, what, txt[:300], wtxt[:300])
                if d:
                    raise Violation("result-changed", "after %s: %s  (now != on a fresh object)" % (did[i], d))
            ctx.state(cname, sorted(set(did[i])), st["m"])
            did[i].append(st["m"])
            ctx.hit("call:%s.%s" % (cname, st["m"]))
            ctx.nontrivial = ctx.nontrivial or len(did[i]) > 1
        ops.close_all()
        for i, was in born.items():
            now = state(objs[i])
            for a, v in was.items():
                if a not in now:
                    raise Violation("attribute-changed", "%s.%s is gone after %s" % (type(objs[i]).__name__, a, what))
                d = O.diff(now[a], v, "%s.%s" % (type(objs[i]).__name__, a), rtol=1e-12, atol=0.0)
                if d:
                    raise Violation("attribute-changed", "%s after %s" % (d, what))
        if "new" in st and type(res).__module__.startswith("giddy"):
            born[j] = state(res)
            did[j] = []
    ctx.sig = [[S.label(st), st.get("on"), st.get("a")] for st in s["steps"]]
    ctx.event(ctx.sig)


shrink = S.shrink
