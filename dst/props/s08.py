import atexit
import contextlib
import gc
import random
import sys
import types
import weakref

import numpy as np

from .. import ops, rngseam as R, session as S
from ..boot import G
from ..core import Ctx, Violation

ID = "S08"
PLAN = {"quick": (1600, 50), "thorough": (30000, 850)}
RULE = ("a run = one session of public operations on one set of inputs, some interrupted or failing inside; then the caller lets go of inputs, results and figures. Every array, weights object, frame and "
        "result object of the session must be gone after a garbage collection; and a session repeated on fresh inputs of the same size must not leave more behind in the library's modules each time. "
        "Non-trivial: at least two operations ran; distinct by the session")
STATES = "distinct (operation, class of the thing released)"
REPEATS = 5
KINDS = {"W", "Graph", "csr_matrix", "csr_array", "coo_array", "GeoDataFrame", "DataFrame", "Figure", "Moran_Local", "MarkovChain"}


def gen(rng, i, tier):
    s = S.gen(rng, rng.choice([1, 2, 3, 4, 6]), tier, plots=0.25, fault=rng.choice([0.0, 0.3]), mut=rng.choice([0.0, 0.1]))
    return dict(s, grow=rng.random() < 0.35, faulty=rng.random() < 0.5)


def targets(x, depth=0, path=""):
    """(name, object) of the arrays and objects in what an operation returned."""
    if isinstance(x, np.ndarray):
        yield path, x
    elif isinstance(x, (list, tuple)) and depth < 3 and len(x) < 60:
        for i, v in enumerate(x):
            yield from targets(v, depth + 1, "%s[%d]" % (path, i))
    elif isinstance(x, dict) and depth < 3:
        for k in x:
            yield from targets(x[k], depth + 1, "%s[%r]" % (path, k))
    elif type(x).__module__.startswith("giddy"):
        yield path + " (%s)" % type(x).__name__, x
        for k, v in list(vars(x).items()):
            if depth < 3:
                yield from targets(v, depth + 1, "%s.%s" % (path, k))


def refs_of(W):
    out = []
    for k, v in list(vars(W).items()):
        if k in ("spec",):
            continue
        try:
            out.append(("the caller's " + k, weakref.ref(v)))
        except TypeError:
            for n, a in targets(v, 0, k):
                out.append(("the caller's " + n, weakref.ref(a)))
    return out


def session(s, points, ctx, seed=None):
    """Runs the session and returns weak references to everything in it."""
    W = ops.World(s["world"])
    if seed is not None:
        r = random.Random(seed)
        for a in ("x", "y", "z", "panel", "panel2", "Y2", "cls"):
            W.mutate(a, r.randrange(1 << 20))
    refs = refs_of(W)
    objs, labels = [], []
    for st, pts in zip(s["steps"], points):
        if S.skip(st, objs):
            objs.append(None)
            continue
        res, _, stopped = S.do(W, st, objs, "line", pts, ctx)
        if "mut" not in st:
            labels.append("%s%s" % (S.label(st), " (stopped)" if stopped else ""))
            ctx.hit("op:" + S.label(st))
        for n, v in targets(res, 0, "result of " + S.label(st)):
            if not any(r() is v for _, r in refs):
                refs.append((n, weakref.ref(v)))
        stopped = None
        objs.append(res)
    ops.close_all()
    return refs, labels


def reach():
    """How much hangs on the library's modules: their globals, classes, functions, and whatever these hold."""
    mods = [m for k, m in sorted(sys.modules.items()) if k == "giddy" or k.startswith("giddy.")]
    ours = lambda x: str(getattr(x, "__module__", "") or "").startswith("giddy")
    seen, todo = set(), [vars(m) for m in mods]
    count = size = 0
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, types.ModuleType):
            continue
        if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, np.ufunc)) and not ours(x):
            continue
        seen.add(id(x))
        count += 1
        size += x.nbytes if isinstance(x, np.ndarray) else len(x) if isinstance(x, (str, bytes)) else 1
        todo.extend(gc.get_referents(x))
    return count + atexit._ncallbacks() + len(gc.callbacks), size


@contextlib.contextmanager
def watched(made):
    """Notes (weakly) the arrays and objects the library's functions had when they returned."""
    root = G["root"]

    def prof(frame, event, arg):
        if event == "return" and frame.f_code.co_filename.startswith(root):
            for k, v in frame.f_locals.items():
                if isinstance(v, np.ndarray) or type(v).__name__ in KINDS:
                    r = made.get(id(v))
                    if r is None or r[0]() is not v:
                        if r is not None and r[0]() is not None:
                            continue
                        made[id(v)] = weakref.ref(v), "%s in %s" % (k, frame.f_code.co_qualname)
    old = sys.getprofile()
    sys.setprofile(prof)
    try:
        yield
    finally:
        sys.setprofile(old)


def instances():
    """Objects that are alive: of the library's classes, and of those it makes of others' classes."""
    return {id(o): type(o).__name__ for o in gc.get_objects()
            if type(o).__name__ in KINDS or str(type(o).__module__).startswith("giddy") and not isinstance(o, (type, types.FunctionType))}


def run(s, ctx):
    points = S.measure(s, "line")
    first = instances()
    refs, labels = session(s, points, ctx)
    # (the library's modules may keep what the last figure was drawn from only as long as the figure is open)
    gc.collect()
    left = [n for n, r in refs if r() is not None]
    for n, r in refs:
        ctx.state(n.split("[")[0])
    if left:
        raise Violation("kept", "after %s, with everything dropped by the caller, still in memory: %s" % (labels, left[:4]))
    half = sorted(v for k, v in instances().items() if k not in first)
    if half:
        raise Violation("kept", "after %s, with everything dropped by the caller, objects made for it are still in memory: %s" % (labels, half[:6]))
    ctx.hit("released", len(refs))
    if s["grow"]:
        steps = [{k: v for k, v in st.items() if k != "fault"} for st in s["steps"]]
        again, at = (s, points) if s.get("faulty") else (dict(s, steps=steps), [{}] * len(steps))
        used, alive, made = [], [], {}
        for j in range(REPEATS):
            with watched(made):
                session(again, at, Ctx(), j)
            gc.collect()
            used.append(reach())
            alive.append(sum(r() is not None for r, _ in made.values()))
        inc = np.diff(np.array(used).sum(axis=1))
        if min(inc[-3:]) > 0:
            raise Violation("growth", "the session %s repeated on fresh inputs leaves more behind in the library each time (objects and their sizes: %s)" % (
                labels, used))
        if np.diff(alive)[-3:].min() > 0:
            raise Violation("growth", "the session %s repeated on fresh inputs leaves more behind each time, among it what was made as %s (counts: %s)" % (
                labels, sorted({n for r, n in made.values() if r() is not None})[:4], alive))
        ctx.hit("repeats", REPEATS)
        ctx.hit("arrays made inside and watched", len(made))
    ctx.nontrivial = len(labels) >= 2 or s["grow"]
    ctx.sig = [labels, [st.get("a") for st in s["steps"]], s["grow"]]
    ctx.event(labels, len(refs))


def shrink(s):
    if s["grow"]:
        yield dict(s, grow=False)
    yield from S.shrink(s)
