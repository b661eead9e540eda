import numpy as np

from .. import ops, procstate, rngseam as R, session as S
from ..boot import G
from ..core import Violation

ID = "S02"
PLAN = {"quick": (3300, 65), "thorough": (30000, 850)}
RULE = ("a run = one session of public operations, nearly half of them made to fail inside a chosen call from the library into what it depends on; plotting style, error and print settings, "
        "numpy namespace, interpreter settings and (where no randomness is used) the random stream are compared around every operation. "
        "Non-trivial: at least two operations ran; distinct by the session")
STATES = "distinct (operation, arguments, where it failed)"
KEEPS = ("heatmap", "composite")     # use random numbers and give them back when they return


def gen(rng, i, tier):
    fig = rng.random() < 0.15      # figures of a map
    s = S.gen(rng, rng.choice([2, 3, 4, 5, 6]), tier, plots=0.8, fault=0.45, methods=0.8 if fig else 0.5, heavies=1.0 if fig else 0.3,
              names=["Rose"] if fig else None if rng.random() < 0.6 else ["Rose", "Markov", "steady_state", "mfpt", "Theta", "Tau"])
    return dict(s, err=rng.choice([None, None, "raise-divide", "warn"]), style=rng.random() < 0.3)


def run(s, ctx):
    if G["import_diff"]:
        raise Violation("import", "importing the library changed process-wide state: " + G["import_diff"])
    points = S.measure(s, "call")
    W = ops.World(s["world"])
    W.gdf
    if s["err"] == "raise-divide":
        np.seterr(under="warn", over="ignore")
    elif s["err"] == "warn":
        np.seterr(all="warn")
    if s["style"]:
        import matplotlib as mpl
        mpl.rcParams["axes.facecolor"] = "#eeeeff"
        mpl.rcParams["grid.color"] = "b"
        np.set_printoptions(precision=5)
    objs = []
    ran = 0
    for st, pts in zip(s["steps"], points):
        if S.skip(st, objs):
            objs.append(None)
            continue
        cls = type(objs[st["on"]]).__name__ if "on" in st else None
        R.apply(st["rng"])
        before, rs = procstate.take(), np.random.get_state()
        res, _, stopped = S.do(W, st, objs, "call", pts, ctx)
        d = procstate.diff(before, procstate.take())
        how = " when stopped (%s)" % stopped if stopped else ""
        if d:
            raise Violation("state-changed:" + d.split(":")[0].split(" was ")[0], "%s(%s)%s: %s" % (S.label(st), st.get("a"), how, d))
        if ops.WARN["before"] != ops.WARN["after"]:
            raise Violation("state-changed:warnings", "%s(%s)%s changed how Python treats warnings: %s, was %s" % (
                S.label(st), st.get("a"), how, "filters now start with %s" % ops.WARN["after"][0][:2], ops.WARN["before"][0][:2]))
        uses = ops.uses_rng(st, cls) or (stopped and st.get("m") in KEEPS)
        if not uses and not R.same(rs, np.random.get_state()):
            raise Violation("state-changed:random stream", "%s(%s)%s moved the global random stream" % (S.label(st), st.get("a"), how))
        ops.close_all()
        objs.append(res)
        ran += 1
        ctx.hit("op:" + S.label(st))
        ctx.state(S.label(st), st.get("a"), str(stopped))
    ctx.nontrivial = ran >= 2
    ctx.sig = [[S.label(st), st.get("a"), st.get("fault")] for st in s["steps"]]
    ctx.event(ctx.sig)


def shrink(s):
    if s["err"]:
        yield dict(s, err=None)
    if s["style"]:
        yield dict(s, style=False)
    yield from S.shrink(s)
