import importlib
import sys
import warnings

import numpy as np

from .. import faults as F, observe as O, ops, procstate, rngseam as R, session as S
from ..boot import G
from ..core import Violation

ID = "S09"
PLAN = {"quick": (1800, 45), "thorough": (30000, 850)}
RULE = ("a run = the library is loaded anew in a process that has its dependencies: modules in any order, some loads interrupted at a chosen line or failing because a dependency is missing and then repeated, "
        "some with warnings and floating point events turned into errors, some without the optional packages; then a session of operations gives what it gives after an ordinary load, and loading leaves process-wide state and the random stream alone. "
        "Non-trivial: modules were loaded in another order or with a fault; distinct by order, faults and session")
STATES = "distinct (order of loading, faults)"
MODS = ["giddy", "giddy.components", "giddy.directional", "giddy.ergodic", "giddy.markov", "giddy.mobility", "giddy.plotting", "giddy.rank", "giddy.sequence", "giddy.util"]
NEEDED = ["numpy", "libpysal", "scipy", "mapclassify", "quantecon", "esda", "esda.moran", "scipy.stats", "scipy.special", "numpy.linalg"]
OPTIONAL = ["matplotlib", "seaborn", "ipywidgets", "splot"]


def gen(rng, i, tier):
    order = rng.sample(MODS, rng.choice([1, 2, 4, len(MODS)]))
    loads = []
    for m in order:
        d = {"m": m}
        u = rng.random()
        if u < 0.3:
            d["fault"] = F.gen_fault(rng)
        elif u < 0.5:
            d["missing"] = rng.choice(NEEDED)
        loads.append(d)
    bare = rng.random() < 0.3
    s = S.gen(rng, rng.choice([2, 3, 4]), tier, plots=0.0 if bare else 0.3)
    if bare:
        s["steps"] = [st for st in s["steps"] if "new" in st]
    return dict(s, loads=loads, bare=bare, meta=rng.random() > 0.2, strict=rng.random() < 0.3)


def session(s):
    W = ops.World(s["world"])
    objs, out = [], []
    for st in s["steps"]:
        if S.skip(st, objs):
            objs.append(None)
            continue
        res, txt = ops.step_result(W, st, objs)
        out.append((S.label(st), ops.snap(res), txt))
        ops.close_all()
        objs.append(res)
    return out


def loaded():
    return [m for m in sys.modules if m == "giddy" or m.startswith("giddy.")]


class without:
    """The named packages are not installed."""

    def __init__(self, names):
        self.names = names

    def __enter__(self):
        self.keep = {m: v for m, v in sys.modules.items() if any(m == n or m.startswith(n + ".") for n in self.names)}
        for m in self.keep:
            sys.modules[m] = None
        for n in self.names:
            sys.modules[n] = None

    def __exit__(self, *a):
        for n in self.names:
            if sys.modules.get(n) is None:
                sys.modules.pop(n, None)
        sys.modules.update(self.keep)


class no_metadata:
    """The library runs from its source tree: nothing knows it as an installed package."""

    def __enter__(self):
        from importlib import metadata
        self.old = old = metadata.Distribution.__dict__["from_name"]

        def from_name(cls, name):
            if name == "giddy":
                raise metadata.PackageNotFoundError(name)
            return old.__func__(cls, name)
        metadata.Distribution.from_name = classmethod(from_name)

    def __exit__(self, *a):
        from importlib import metadata
        metadata.Distribution.from_name = self.old


def load(m, strict):
    with warnings.catch_warnings():
        warnings.simplefilter("error" if strict else "ignore")
        if strict:
            warnings.filterwarnings("ignore", category=DeprecationWarning, module="(?!giddy)")
        with np.errstate(all="raise" if strict else "ignore"):
            return importlib.import_module(m)


def run(s, ctx):
    if G["import_diff"]:
        raise Violation("state-changed:first", "loading the library changed process-wide state: " + G["import_diff"])
    if s.get("meta", True):
        return body(s, ctx)
    ctx.hit("loads from a source tree")
    with no_metadata():
        body(s, ctx)


def body(s, ctx):
    want = F.forked(lambda: session(s))
    for m in loaded():
        del sys.modules[m]
    before, rs = procstate.take(), np.random.get_state()
    trail = []

    def state(what):
        gone.__exit__()          # (the check itself may look at the optional packages)
        d = procstate.diff(before, procstate.take())
        gone.__enter__()
        if d:
            raise Violation("state-changed:" + d.split(":")[0].split(" was ")[0], "loading %s changed process-wide state: %s" % (what, d))
        if not R.same(rs, np.random.get_state()):
            raise Violation("state-changed:random stream", "loading %s moved the global random stream" % what)

    def must(m, what):
        try:
            load(m, s["strict"])
        except BaseException as e:
            raise Violation("load-failed", "%s: loading %s gave %s: %s" % (what, m, type(e).__name__, e))

    gone = without(OPTIONAL) if s["bare"] else without([])
    with gone:
        for d in s["loads"]:
            m = d["m"]
            plotting = m == "giddy.plotting"
            if s["bare"] and plotting:
                try:
                    load(m, s["strict"])
                except ImportError:
                    trail.append(m + " (packages missing)")
                    ctx.hit("fault:optional package missing")
                    state(trail)
                    continue
                except BaseException as e:
                    raise Violation("load-failed", "loading giddy.plotting without its packages gave %r" % e)
            if d.get("missing") and d["missing"] in sys.modules:
                with without([d["missing"]]):
                    try:
                        load(m, s["strict"])
                        trail.append("%s without %s" % (m, d["missing"]))
                    except ImportError:
                        ctx.hit("fault:dependency missing")
                        trail.append("%s (no %s)" % (m, d["missing"]))
                    except BaseException as e:
                        raise Violation("load-failed", "loading %s without %s gave %r" % (m, d["missing"], e))
            elif d.get("fault"):
                def dry():
                    rec = F.recorder("line")
                    with rec:
                        load(m, s["strict"])
                    return rec.count
                try:
                    counts = F.forked(dry)
                except RuntimeError as e:
                    raise Violation("load-failed", "after %s: loading %s failed: %s" % (trail, m, str(e)[-300:]))
                inj = F.injector("line", counts, d["fault"])
                exc = None
                try:
                    with inj:
                        load(m, s["strict"])
                except BaseException as e:
                    exc = e
                if inj.fired:
                    if not isinstance(exc, F.KINDS[d["fault"]["kind"]]):
                        raise Violation("swallowed", "the injected %s while loading %s did not reach the caller, who got %r" % (d["fault"]["kind"], m, exc))
                    ctx.hit("fault:%s while loading" % d["fault"]["kind"])
                    trail.append("%s (%s)" % (m, exc))
            state(trail)
            must(m, "after %s%s" % (trail, ", with warnings as errors" if s["strict"] else ""))
            trail.append(m)
            state(trail)
        for m in MODS:
            if m == "giddy.plotting" and s["bare"]:
                continue
            must(m, "after %s" % trail)
        state(trail)
        for m in MODS[1:]:
            if m in sys.modules:
                G[m[6:]] = sys.modules[m]
        G["giddy"] = sys.modules["giddy"]
        if s["bare"]:
            ctx.hit("sessions without the optional packages")
        got = session(s)
    for g, w in zip(got, want):
        d = O.diff(O.canon(g[1]), O.canon(w[1]), g[0], rtol=1e-9)
        if d is None and g[2] != w[2]:
            d = "%s printed %r, expected %r" % (g[0], g[2][:200], w[2][:200])
        if d:
            raise Violation("result-differs", "after loading %s%s: %s  (now != after an ordinary load)" % (trail, " without optional packages" if s["bare"] else "", d))
    ctx.hit("loads", len(s["loads"]))
    ctx.nontrivial = True
    ctx.sig = [trail, s["strict"], s["bare"], [(S.label(st), st.get("a")) for st in s["steps"]]]
    ctx.state(trail, s["strict"], s["bare"])
    ctx.event(trail, O.sig(O.canon([g[1] for g in got])))


def shrink(s):
    L = s["loads"]
    for j in range(len(L)):
        if len(L) > 1:
            yield dict(s, loads=L[:j] + L[j + 1:])
        if len(L[j]) > 1:
            yield dict(s, loads=L[:j] + [{"m": L[j]["m"]}] + L[j + 1:])
    if not s.get("meta", True):
        yield dict(s, meta=True)
    for k in ("strict", "bare"):
        if s[k]:
            yield dict(s, **{k: False})
    yield from S.shrink(s)
