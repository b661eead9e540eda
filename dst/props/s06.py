import pickle

from .. import faults as F, observe as O, ops, rngseam as R, session as S
from ..core import Violation

ID = "S06"
PLAN = {"quick": (3600, 60), "thorough": (40000, 850)}
RULE = ("a run = one analysis object with a history of method calls and lazy reads, saved at up to three points of it; after each save the process is lost and a fresh one restores the object from the saved bytes and goes on. "
        "Every later value, attribute, figure and printout is compared with a life without losses. Non-trivial: at least one loss; distinct by history and points of loss")
STATES = "distinct (class, methods called before the loss, methods called after it)"
KINDS = ["Rose", "Rose", "Spatial_Markov", "Spatial_Markov", "Spatial_Markov_discrete", "LISA_Markov", "LISA_Markov", "Markov", "FullRank_Markov",
         "GeoRank_Markov", "homogeneity", "Theta", "Tau", "SpatialTau", "Tau_Local", "Tau_Local_Neighbor", "Tau_Local_Neighborhood",
         "Tau_Regional", "Sequence"]


def gen(rng, i, tier):
    w = ops.gen_world(rng)
    n = w["n"]
    name = rng.choice(KINDS)
    steps = [{"new": name, "a": ops.pick(rng, ops.OPS[name]["choices"]), "rng": R.gen(rng, n)}]
    cls = ops.result_class(name)
    for _ in range(rng.choice([0, 1, 2, 4, 6])):
        c = ops.gen_on(rng, n, 0, cls)
        if c is None or c["m"] == "composite" or (ops.plots(c, cls) and rng.random() < 0.5):
            continue
        steps.append(c)
    if cls == "Rose" and rng.random() < 0.4:     # permutations before and after
        steps.insert(1, ops.gen_on(rng, n, 0, cls, ["permute"]))
        steps.append(ops.gen_on(rng, n, 0, cls, ["permute"]))
    m = len(steps)
    saves = sorted(rng.sample(range(m), min(m, rng.choice([1, 1, 2, 3]))))
    return {"world": w, "steps": steps, "saves": saves, "proto": rng.choice([2, 3, 4, 5])}


def life(s, start, stop, blob):
    """Steps start..stop-1 in a process that begins with the saved object."""
    W = ops.World(s["world"])
    o = pickle.loads(blob) if blob is not None else None
    out = []
    for st in s["steps"][start:stop]:
        res, txt = ops.step_result(W, st, [o])
        if "new" in st:
            o = res
            if isinstance(o, ops.Raised):
                return out, None
        out.append((S.label(st), ops.snap(res, lazy=False), txt, O.public(o)))
        ops.close_all()
    return out, o


def run(s, ctx):
    last = len(s["steps"])

    def unbroken():
        out, o = life(s, 0, last, None)
        if o is None:
            return out, None, None
        return out, ops.lazy_values(o), O.public(o)

    def segment(a, b, blob):
        def go():
            out, o = life(s, a, b, blob)
            if o is None:
                return out, None, None
            try:
                data = pickle.dumps(o, protocol=s["proto"])
            except Exception as e:
                return out, ("unpicklable", type(e).__name__, str(e)[:200]), None
            return out, data, None
        return F.forked(go)

    want, wlazy, wpub = F.forked(unbroken)
    if wpub is None:
        raise Violation("exception", "%s could not be built" % s["steps"][0])
    cls = s["steps"][0]["new"]
    got, blob, at = [], None, 0
    for cut in s["saves"]:
        out, data, _ = segment(at, cut + 1, blob)
        if isinstance(data, tuple):
            raise Violation("not-saved", "%s after %s cannot be pickled: %s: %s" % (cls, [S.label(x) for x in s["steps"][:cut + 1]], *data[1:]))
        got += out
        blob, at = data, cut + 1
        ctx.hit("fault:process lost after save")

    def rest():
        try:
            pickle.loads(blob)
        except Exception as e:
            return None, type(e).__name__, str(e)[:200]
        out, o = life(s, at, last, blob)
        return out, ops.lazy_values(o), O.public(o)

    out, lazy, pub = F.forked(rest)
    if out is None:
        raise Violation("not-restored", "%s cannot be restored: %s: %s" % (cls, lazy, pub))
    got += out
    where = "%s saved after steps %s of %s" % (cls, s["saves"], [S.label(x) for x in s["steps"]])
    for g, w in list(zip(got, want)) + [(("lazy", lazy, "", pub), ("lazy", wlazy, "", wpub))]:
        for c, part in ((1, "result"), (3, "attributes")):
            d = O.diff(O.canon(g[c]), O.canon(w[c]), "%s %s" % (g[0], part), rtol=1e-9)
            if d:
                raise Violation("restored-differs", "%s: %s  (restored != original)" % (where, d))
    if len(got) != len(want):
        raise Violation("restored-differs", "%s: %d steps instead of %d" % (where, len(got), len(want)))
    ctx.hit("class:" + cls)
    ctx.nontrivial = True
    names = [S.label(x) for x in s["steps"]]
    ctx.sig = [cls, s["steps"][0]["a"], names, s["saves"]]
    ctx.state(cls, sorted(names[1:s["saves"][-1] + 1]), sorted(names[s["saves"][-1] + 1:]))
    ctx.event(O.sig(O.canon([g[1] for g in got])))


def shrink(s):
    for i in range(len(s["steps"]) - 1, 0, -1):
        sv = sorted({v if v < i else v - 1 for v in s["saves"]})
        yield dict(s, steps=s["steps"][:i] + s["steps"][i + 1:], saves=sv)
    for i in range(len(s["saves"])):
        if len(s["saves"]) > 1:
            yield dict(s, saves=s["saves"][:i] + s["saves"][i + 1:])
    for c in ops.shrink_session(s):
        if len(c["steps"]) == len(s["steps"]):
            yield c
