import gc

from .. import faults as F, ops, rngseam as R, session as S
from ..core import Violation
from .. import observe as O

ID = "S03"
PLAN = {"quick": (3900, 60), "thorough": (40000, 850)}
RULE = ("a run = a history of operations (some failing, inputs changed in place or replaced in between) followed by one target analysis and method calls on it, in one process; "
        "the target is also run alone in a pristine process with the same inputs and stream, and both must agree in all attributes, values, figures and printed text. "
        "Non-trivial: the history ran at least one operation; distinct by history and target")
STATES = "distinct (last operation of the history, target) pairs with their result"


OTHER = {"p": "q", "p3": "q3", "Ts": "Ts2", "F": "F2", "panel": "panel2", "x": "y", "Y2": "Y2b", "ini": "ini2", "reg": "reg2", "attr": "attr2",
         "w": "wj", "T1T2": "T2T1", "user": "user2"}
OTHER.update({b: a for a, b in list(OTHER.items())})


def gen(rng, i, tier):
    if rng.random() < 0.15:
        return gen_pair(rng)
    s = S.gen(rng, rng.choice([1, 2, 3, 4, 6, 9]), tier, plots=0.25, fault=0.1, mut=0.25)
    n = s["world"]["n"]
    hist = [st for st in s["steps"] if "new" in st]
    if hist and rng.random() < 0.35:       # the same operation on the same inputs, changed since
        h = rng.choice(hist)
        s["steps"].insert(s["steps"].index(h) + 1, None)
        at = s["steps"].index(None)
        s["steps"][at] = {"mut": rng.choice(S.used(h)), "v": rng.randrange(1000), "fresh": rng.random() < 0.1}
        for st in s["steps"][at + 1:]:
            if st.get("on", -1) >= at:
                st["on"] += 1
        t = {"new": h["new"], "a": dict(h["a"]), "rng": R.gen(rng, n)}
    elif hist and rng.random() < 0.6:        # the same operation again
        h = rng.choice(hist)
        t = {"new": h["new"], "a": dict(h["a"]), "rng": R.gen(rng, n)}
        if rng.random() < 0.4 and ops.OPS[t["new"]]["choices"]:
            t["a"] = ops.pick(rng, ops.OPS[t["new"]]["choices"])
    else:
        t = ops.gen_new(rng, n)
    s["target"] = [t]
    cls = ops.result_class(t["new"])
    for _ in range(rng.choice([0, 1, 2, 3])):
        c = ops.gen_on(rng, n, 0, cls)
        if c and (c["m"] != "composite" or rng.random() < 0.15):
            s["target"].append(c)
    s["drop"] = rng.random() < 0.4
    return s


def gen_pair(rng):
    """An analysis, and the same analysis of other (often all but equal) data of the same shape."""
    w = ops.gen_world(rng)
    if rng.random() < 0.6:
        w["near"] = rng.choice([1e-4, 1e-6, 1e-9])
    while True:
        st = ops.gen_new(rng, w["n"])
        swap = [k for k, v in st["a"].items() if isinstance(v, str) and v in OTHER]
        if swap:
            break
    t = dict(st, a=dict(st["a"], **{k: OTHER[st["a"][k]] for k in rng.sample(swap, rng.randrange(1, len(swap) + 1))}))
    if rng.random() < 0.5:
        t = dict(t, rng=R.gen(rng, w["n"]))
    cls = ops.result_class(t["new"])
    on = [c for c in (ops.gen_on(rng, w["n"], 0, cls) for _ in range(2)) if c and not ops.plots(c, cls)]
    return {"world": w, "steps": [st] + on, "target": [t] + on, "drop": rng.random() < 0.3}


def target(W, steps):
    objs, out = [], []
    for st in steps:
        if S.skip(st, objs):
            objs.append(None)
            continue
        res, txt = ops.step_result(W, st, objs)
        objs.append(res)
        out.append((S.label(st), ops.snap(res), txt))
        ops.close_all()
    o = objs[0]
    if o is not None and not isinstance(o, ops.Raised):
        out.append(("after", ops.snap(o)))
    return out


def run(s, ctx):
    def alone():
        W = ops.World(s["world"])
        for st in s["steps"]:
            if "mut" in st:
                ops.call(W, st, [])
        return target(W, s["target"])

    want = F.forked(alone)
    points = S.measure(s, "call") if any(st.get("fault") for st in s["steps"]) else [{}] * len(s["steps"])
    W = ops.World(s["world"])
    objs = []
    for st, pts in zip(s["steps"], points):
        if S.skip(st, objs):
            objs.append(None)
            continue
        res, _, _ = S.do(W, st, objs, "call", pts, ctx)
        ops.close_all()
        objs.append(res)
        if "mut" in st:
            ctx.hit("inputs replaced" if st.get("fresh") else "inputs changed in place")
        else:
            ctx.hit("operations in histories")
            ctx.nontrivial = True
    if s["drop"]:
        objs.clear()
        gc.collect()
    got = target(W, s["target"])
    for g, w in zip(got, want):
        d = O.diff(O.canon(g[1]), O.canon(w[1]), g[0], rtol=1e-9)
        if d is None and len(g) > 2 and g[2] != w[2]:
            d = "%s: printed %r, alone %r" % (g[0], g[2][:200], w[2][:200])
        if d:
            raise Violation("history-dependent", "after %s: %s  (in this session != alone)" % (
                [S.label(x) for x in s["steps"]][-4:], d))
    ctx.hit("target:" + S.label(s["target"][0]))
    ctx.sig = [[(S.label(st), st.get("a")) for st in s["steps"]], [(S.label(st), st.get("a")) for st in s["target"]]]
    ctx.state(S.label(s["steps"][-1]), S.label(s["target"][0]), O.sig(O.canon(got[0][1])))
    ctx.event(O.sig(O.canon([g[1] for g in got])))


def shrink(s):
    for i in range(len(s["target"]) - 1, 0, -1):
        yield dict(s, target=s["target"][:i] + s["target"][i + 1:])
    if s["drop"]:
        yield dict(s, drop=False)
    yield from S.shrink(s)
