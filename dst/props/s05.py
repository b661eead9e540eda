import numpy as np

from .. import observe as O, ops, rngseam as R
from ..core import Violation

ID = "S05"
PLAN = {"quick": (2200, 40), "thorough": (60000, 800)}
RULE = ("a run = one analysis of a random world done without inference and with several numbers of permutations under scripted streams; every attribute and lazy value that exists without inference must agree. "
        "Non-trivial: permutations were run; distinct by analysis, arguments, data and streams")
STATES = "distinct observed results"
NAMES = ["Spatial_Markov", "Spatial_Markov", "Spatial_Markov_discrete", "LISA_Markov", "Theta", "SpatialTau", "Tau_Local_Neighbor",
         "Tau_Local_Neighborhood", "Tau_Regional", "Rose"]
ARGUMENT = ("permutations",)      # the attribute that only repeats the argument


def gen(rng, i, tier):
    w = ops.gen_world(rng)
    name = rng.choice(NAMES)
    a = ops.pick(rng, ops.OPS[name]["choices"])
    base = R.gen(rng, w["n"])
    var = [{"P": rng.choice([1, 2, 4, 9, 19]), "rng": R.gen(rng, w["n"])} for _ in range(rng.choice([1, 2, 3]))]
    return {"world": w, "op": name, "a": a, "rng": base, "var": var}


def values(o):
    out = dict(O.public(o, skip=ARGUMENT + ("w",)))
    if "theta" in out and type(o).__name__ == "Theta":
        out["theta"] = O.canon(np.asarray(o.theta).ravel())     # (1, t-1) with inference
    out.update(("lazy " + a, v) for a, v in ops.lazy_values(o))
    return out


def run(s, ctx):
    W = ops.World(s["world"])
    a0 = dict(s["a"], P=0) if "P" in s["a"] else s["a"]
    base, txt = ops.step_result(W, {"new": s["op"], "a": a0, "rng": s["rng"]}, [])
    if isinstance(base, ops.Raised):
        raise Violation("exception", "%s(%s) raised %s: %s" % (s["op"], a0, base.kind, base.msg))
    want = values(base)
    for v in s["var"]:
        a = dict(s["a"], P=v["P"]) if "P" in s["a"] else s["a"]
        rng = s["rng"] if s["op"] == "Spatial_Markov_discrete" else v["rng"]
        o, txt2 = ops.step_result(ops.World(s["world"]), {"new": s["op"], "a": a, "rng": rng}, [])
        if s["op"] == "Rose":
            R.apply(v["rng"])
            with ops.captured():
                o.permute(v["P"])
        if isinstance(o, ops.Raised):
            raise Violation("exception", "%s(%s) raised %s: %s" % (s["op"], a, o.kind, o.msg))
        got = values(o)
        for k, x in want.items():
            if k not in got:
                raise Violation("estimates-changed", "%s with %d permutations has no %s" % (s["op"], v["P"], k))
            d = O.diff(got[k], x, k, rtol=1e-12, atol=0.0, kinds=False)
            if d:
                raise Violation("estimates-changed", "%s: %s  (with %d permutations != without)" % (s["op"], d, v["P"]))
        ctx.hit("op:" + s["op"])
        ctx.hit(R.label(rng))
    ctx.nontrivial = True
    ctx.sig = [s["op"], s["a"], s["world"]["panel"], s["var"]]
    ctx.state(s["op"], O.sig(O.canon(want)))
    ctx.event(s["op"], O.sig(O.canon(want)))


def shrink(s):
    for j in range(len(s["var"])):
        if len(s["var"]) > 1:
            yield dict(s, var=s["var"][:j] + s["var"][j + 1:])
        if s["var"][j]["P"] > 1:
            yield dict(s, var=s["var"][:j] + [dict(s["var"][j], P=1)] + s["var"][j + 1:])
        for r in R.shrink(s["var"][j]["rng"]):
            yield dict(s, var=s["var"][:j] + [dict(s["var"][j], rng=r)] + s["var"][j + 1:])
    for r in R.shrink(s["rng"]):
        yield dict(s, rng=r)
    for c, vs in ops.OPS[s["op"]]["choices"].items():
        if s["a"].get(c) != vs[0] and c != "P":
            yield dict(s, a=dict(s["a"], **{c: vs[0]}))
