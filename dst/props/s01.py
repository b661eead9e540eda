import numpy as np

from .. import faults as F, inputs as I, observe as O, ops, session as S
from ..core import Violation
from ..util import need

ID = "S01"
PLAN = {"quick": (2600, 60), "thorough": (40000, 850)}
RULE = ("a run = one world of shared inputs and a session of public operations on it, about half of them interrupted or starved of memory at a chosen line of the library; "
        "a quarter of the sessions on read-only arrays, compared with writable ones; every array, list, matrix, weights object and data frame is compared byte for byte with its state before each operation. "
        "Non-trivial: at least two operations ran; distinct by the session")
STATES = "distinct (operation, arguments, where it was stopped)"


def gen(rng, i, tier):
    if rng.random() < 0.15:      # figures of a map
        s = S.gen(rng, rng.choice([2, 3, 4]), tier, plots=1.0, fault=0.4, names=["Rose"], methods=0.8, heavies=1.0)
    else:
        s = S.gen(rng, rng.choice([2, 3, 4, 5, 6, 8]), tier, plots=0.35, fault=0.5)
    if rng.random() < 0.3:
        for a, b in ((a, b) for a, b, _ in list(s["world"]["w"]["edges"])[:1]):
            s["world"]["w"]["edges"].append([a, a, 1.0])       # a unit that is its own neighbor
    s["ro"] = rng.random() < 0.25
    return s


def lock(W):
    """The caller's arrays are read-only (as memory-mapped or shared ones are)."""
    for v in list(vars(W).values()) + W.Ts + W.Ts2:
        if isinstance(v, np.ndarray):
            v.flags.writeable = False


def writable(s):
    """What the session gives on arrays that may be written to."""
    W = ops.World(s["world"])
    objs, out = [], []
    for st in s["steps"]:
        if S.skip(st, objs):
            objs.append(None)
            out.append(None)
            continue
        res, txt = ops.step_result(W, st, objs)
        out.append((ops.snap(res, lazy=False), txt))
        ops.close_all()
        objs.append(res)
    return out


def run(s, ctx):
    points = S.measure(s, "line")
    want = F.forked(lambda: writable(s)) if s.get("ro") else None
    W = ops.World(s["world"])
    W.gdf
    if s.get("ro"):
        lock(W)
        ctx.hit("read-only inputs")
    objs = []
    ran = 0
    for st, pts in zip(s["steps"], points):
        if S.skip(st, objs):
            objs.append(None)
            continue
        before = W.prints()
        res, _, stopped = S.do(W, st, objs, "line", pts, ctx)
        if want and not stopped:
            d = O.diff(O.canon(ops.snap(res, lazy=False)), O.canon(want[len(objs)][0]), S.label(st), rtol=1e-9)
            if d:
                raise Violation("read-only", "%s(%s) on read-only inputs: %s  (read-only != writable)" % (S.label(st), st.get("a"), d))
        ops.close_all()
        objs.append(res)
        ran += 1
        bad = ops.changed(before, W.prints())
        if bad:
            raise Violation("input-changed:" + bad, "%s(%s)%s changed the caller's %s" % (
                S.label(st), st.get("a"), " when stopped (%s)" % stopped if stopped else "", bad))
        ctx.hit("op:" + S.label(st))
        ctx.state(S.label(st), st.get("a"), str(stopped))
    for name in ("w", "wi"):
        w = getattr(W, name)
        with np.errstate(all="ignore"):
            need(np.allclose(w.sparse.toarray(), I.w_dense(w)), "input-changed:" + name,
                 "the sparse form of the caller's weights no longer agrees with its neighbors and weights")
    ctx.nontrivial = ran >= 2
    ctx.sig = [[S.label(st), st.get("a"), st.get("fault")] for st in s["steps"]]
    ctx.event(ctx.sig)


def shrink(s):
    if s.get("ro"):
        yield dict(s, ro=False)
    yield from S.shrink(s)
