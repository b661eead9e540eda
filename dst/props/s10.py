import numpy as np

from .. import faults as F, observe as O, ops, session as S
from ..core import Violation
from .s08 import targets

ID = "S10"
PLAN = {"quick": (2200, 55), "thorough": (40000, 850)}
RULE = ("a run = a history of analyses and method calls, between which the caller overwrites arrays, lists and dictionaries that earlier results handed out (in place: sorting, filling, clearing); "
        "then every other result still shows what it showed, the caller's inputs are untouched, and every operation gives what it gives in a pristine process. "
        "Non-trivial: something was overwritten and something else existed or ran afterwards; distinct by the history")
STATES = "distinct (what was overwritten, what was compared) pairs"


def gen(rng, i, tier):
    w = ops.gen_world(rng)
    n = w["n"]
    steps, cls = [], {}
    one = [rng.choice(sorted(ops.OPS))] if rng.random() < 0.4 else None      # the same analysis again and again
    for j in range(rng.choice([3, 4, 6, 8])):
        r = rng.random()
        if j and r < 0.35:
            steps.append({"scribble": rng.randrange(j), "v": rng.randrange(1000)})
            continue
        st = None
        if cls and r < 0.6:
            t = rng.choice(sorted(cls))
            same = [x for x in steps if "on" in x]
            st = dict(rng.choice(same)) if same and rng.random() < 0.5 else ops.gen_on(rng, n, t, cls[t])
            if st and ops.plots(st, cls[st["on"]]) and (st["m"] == "composite" or rng.random() > 0.3):
                st = None
        if st is None:
            st = ops.gen_new(rng, n, one)
            same = [x for x in steps if "new" in x]
            if same and rng.random() < 0.4:          # a repetition of an earlier call
                st = dict(rng.choice(same))
            c = ops.result_class(st["new"])
            if ops.methods_of(c):
                cls[j] = c
        steps.append(st)
    return {"world": w, "steps": steps}


def bounds(a):
    return np.lib.array_utils.byte_bounds(a) if a.size else (0, 0)


def held(W, objs, skip=()):
    """Arrays of the caller and of the other results."""
    out = []
    for k, v in vars(W).items():
        if k != "spec":
            out += [("the caller's " + n, a) for n, a in targets(v, 0, k) if isinstance(a, np.ndarray)]
    if W._gdf is not None:
        out += [("the caller's frame", W._gdf[c].to_numpy()) for c in W._gdf.columns if c != "geometry"]
    out.append(("the caller's panelD", W.panelD.to_numpy()))
    return out


def scribble(a, v):
    """The caller makes other use of an array that a result handed out."""
    if a.size == 0 or not a.flags.writeable or a.dtype == object:
        return False
    if a.dtype.kind in "US":
        a[...] = "zz"
    elif a.dtype.kind == "b":
        a[...] = ~a
    elif v % 3 == 0:
        a[...] = 77
    elif v % 3 == 1:
        a += a.dtype.type(3)
    else:
        a *= a.dtype.type(0)
    return True


def containers(x, depth=0):
    if isinstance(x, list):
        yield x
    elif isinstance(x, dict):
        yield x
        for k in x:
            yield from containers(x[k], depth + 1)
    elif isinstance(x, tuple) and depth < 3:
        for v in x:
            yield from containers(v, depth + 1)


def parts(res, depth=0):
    """Lists and dictionaries of a result, also those of the results it holds."""
    if type(res).__module__.startswith("giddy") and depth < 3:
        for v in list(vars(res).values()):
            yield from parts(v, depth + 1)
    else:
        yield from containers(res)


def spoil(c, v):
    """The caller empties a list or dictionary, or puts more into it."""
    if v % 2 == 0 and c:
        c.clear()
    elif isinstance(c, list):
        c.extend(["mine", "too"])
    else:
        c["mine"] = "too"


def state(res):
    if isinstance(res, ops.Raised) or res is None:
        return None
    if ops.figure_of(res) is not None:
        return None
    if type(res).__module__.startswith("giddy"):
        return dict(O.public(res, skip=("w",)))
    return {"": O.canon(res)}


def handed(st, res, top):
    """Did a method hand out something that is no part of its object?"""
    if "on" not in st or st["m"].startswith("get:") or top is None or type(res).__module__.startswith("giddy"):
        return False
    own = [a for k, v in vars(top).items() if not k.startswith("_") for _, a in targets(v, 0, k) if isinstance(a, np.ndarray)]
    return not any(np.shares_memory(a, b) for _, a in targets(res) if isinstance(a, np.ndarray) for b in own if object not in (a.dtype, b.dtype))


def pristine(s, i):
    """What step i gives when nothing was ever overwritten (objects it needs are built, in order)."""
    def go():
        W = ops.World(s["world"])
        st = s["steps"][i]
        if "on" not in st:
            res, txt = ops.step_result(W, st, [])
            return ops.snap(res), txt
        objs = []
        for j, x in enumerate(s["steps"][:i + 1]):
            if "scribble" in x or (j not in (i, st["on"]) and x.get("on") != st["on"]):
                objs.append(None)
                continue
            res, txt = ops.step_result(W, x, objs)
            objs.append(res)
        return ops.snap(res, lazy=st["m"] != "get:ht"), txt
    return F.forked(go)


def run(s, ctx):
    W = ops.World(s["world"])
    W.gdf
    before = W.prints()
    objs, spoiled, trail = [], set(), []
    for j, st in enumerate(s["steps"]):
        if "scribble" in st:
            objs.append(None)
            i = st["scribble"]
            res = objs[i]
            if res is None or isinstance(res, ops.Raised) or ops.figure_of(res) is not None:
                continue
            top = s["steps"][i].get("on", i)
            family = {top} | {q for q, x in enumerate(s["steps"][:j]) if x.get("on") == top}
            if handed(s["steps"][i], res, objs[top]):
                family = {i}
            others = [(q, state(objs[q])) for q in range(j) if q not in family and q not in spoiled and objs[q] is not None]
            mine = held(W, objs)
            done = 0
            what = "result of " + S.label(s["steps"][i])
            # (an array that a function returns is never the caller's own; an attribute may be)
            bare = [what] + ["%s[%r]" % (what, q) for q in (res if isinstance(res, dict) else range(8))] if not type(res).__module__.startswith("giddy") else []
            for name, a in targets(res, 0, what):
                # an attribute that is the caller's own array stays the caller's business
                if isinstance(a, np.ndarray) and (name in bare or not any(np.shares_memory(a, b) for _, b in mine if b.dtype != object)):
                    done += scribble(a, st["v"])
            if not s["steps"][i].get("m", "").startswith("get:"):
                theirs = {id(v) for v in vars(W).values()}
                for c in [c for c in parts(res) if id(c) not in theirs]:
                    spoil(c, st["v"])
                    done += 1
            if not done:
                continue
            spoiled |= family
            what = S.label(s["steps"][i])
            trail.append("overwrote the result of " + what)
            ctx.hit("fault:overwritten")
            bad = ops.changed(before, W.prints())
            if bad:
                raise Violation("input-changed:" + bad, "overwriting the result of %s changed the caller's %s" % (what, bad))
            for q, was in others:
                now = state(objs[q])
                ctx.state(what, S.label(s["steps"][q]))
                ctx.nontrivial = True
                if was is None:
                    continue
                for a, v in was.items():
                    d = O.diff(now.get(a), v, "%s.%s" % (S.label(s["steps"][q]), a), rtol=1e-12, atol=0.0)
                    if d:
                        raise Violation("shared", "overwriting the result of %s changed another result: %s" % (what, d))
            continue
        if S.skip(st, objs) or st.get("on") in spoiled:
            objs.append(None)
            continue
        res, txt = ops.step_result(W, st, objs)
        got = ops.snap(res, lazy=st.get("m") != "get:ht")
        ops.close_all()
        if spoiled:
            want, wtxt = pristine(s, j)
            d = O.diff(O.canon(got), O.canon(want), S.label(st))
            if d is None and txt != wtxt and not st.get("m", "").startswith("get:"):
                d = "%s printed %r, expected %r" % (S.label(st), txt[:300], wtxt[:300])
            if d:
                raise Violation("result-changed", "after %s: %s  (now != in a pristine process)" % (trail, d))
            ctx.nontrivial = True
            ctx.state("then", S.label(st), len(spoiled))
        trail.append(S.label(st))
        ctx.hit("op:" + S.label(st))
        objs.append(res)
    ctx.sig = [trail, [st.get("a") for st in s["steps"]]]
    ctx.event(trail)


def shrink(s):
    steps = s["steps"]
    for i in range(len(steps) - 1, -1, -1):
        drop = {i} | {j for j, x in enumerate(steps) if x.get("on") == i or x.get("scribble") == i}
        drop |= {j for j, x in enumerate(steps) if x.get("scribble") in drop}
        left = [j for j in range(len(steps)) if j not in drop]
        if not left:
            continue
        ren = {j: c for c, j in enumerate(left)}
        out = []
        for j in left:
            x = dict(steps[j])
            for k in ("on", "scribble"):
                if k in x:
                    x[k] = ren[x[k]]
            out.append(x)
        yield dict(s, steps=out)
