from .. import faults as F, observe as O, ops, rngseam as R, session as S
from ..core import Violation
from .s04 import state

ID = "F02"
PLAN = {"quick": (2700, 65), "thorough": (50000, 850)}
RULE = ("a run = a session of operations in which most are stopped, up to three times in a row, by an interrupt, a timeout, exhausted memory or stack at a chosen line of the library or in a chosen call out of it, by a failing write to standard output, or by strict floating point and warning settings, and then retried from the same random state; "
        "errors must reach the caller, objects that existed keep their observed results, and the retry must give the undisturbed result. Non-trivial: a fault fired; distinct by operation and faults")
STATES = "distinct (operation, place of the fault)"


def gen(rng, i, tier):
    if rng.random() < 0.1:
        s = S.gen(rng, rng.choice([2, 3, 4]), tier, plots=1.0, names=["Rose"], methods=0.8, heavies=1.0)
    else:
        s = S.gen(rng, rng.choice([1, 2, 2, 3, 4]), tier, plots=0.5)
    for st in s["steps"]:
        plot = st.get("m") in ("heatmap", "rose", "vectors", "composite", "plot", "plot_origin", "plot_vectors")
        if rng.random() < 0.75:
            modes = ["call"] if plot else ["line", "line", "line", "call", "call", "strict"] + ["out"] * (
                4 if st["a"].get("summary") or st.get("m") in ("summary", "get:sojourn_time") or st.get("new") == "sojourn_time" else 0)
            ms = [rng.choice(modes) for _ in range(rng.choice([1, 1, 2, 3]))]
            st["faults"] = [dict(F.gen_fault(rng, m), mode=m) for m in ms]
    return s


def run(s, ctx):
    def undisturbed():
        W = ops.World(s["world"])
        objs, out = [], []
        for st in s["steps"]:
            if S.skip(st, objs):
                objs.append(None)
                out.append(None)
                continue
            res, txt = ops.step_result(W, st, objs)
            out.append((ops.snap(res, lazy=False), txt))
            ops.close_all()
            objs.append(res)
        return out, [ops.snap(o) if o is not None else None for o in objs]

    want, want_end = F.forked(undisturbed)
    W = ops.World(s["world"])
    W.gdf
    objs, born = [], {}
    for j, st in enumerate(s["steps"]):
        if S.skip(st, objs):
            objs.append(None)
            continue
        what = S.label(st)
        done = None
        for f in st.get("faults", []):
            def dry():
                R.apply(st["rng"])
                rec = F.recorder(f["mode"])
                with ops.captured(), rec:
                    try:
                        ops.call(W, st, objs)
                    except Exception:
                        pass
                return rec.count
            counts = F.forked(dry)
            R.apply(st["rng"])
            inj = F.injector(f["mode"], counts, f)
            exc, res = None, None
            with ops.captured() as buf:
                try:
                    with inj:
                        res = ops.call(W, st, objs)
                except BaseException as e:
                    exc = e
            if not inj.fired:
                if exc is None:      # it ran to its end: nothing to retry
                    done = res, buf.getvalue()
                    ctx.hit("fault not reached")
                    break
                ops.close_all()
                continue
            ops.close_all()
            if not isinstance(exc, F.KINDS[f["kind"]]):
                raise Violation("swallowed", "%s(%s): the injected %s did not reach the caller, who got %r" % (
                    what, st.get("a"), f["kind"], exc if exc is not None else type(res)))
            ctx.hit("fault:%s at %s" % (f["kind"], f["mode"]))
            ctx.state(what, str(exc))
            ctx.nontrivial = True
            for i, was in born.items():
                now = state(objs[i])
                for a, v in was.items():
                    d = O.diff(now.get(a, "gone"), v, "%s.%s" % (type(objs[i]).__name__, a), rtol=1e-12, atol=0.0)
                    if d:
                        raise Violation("object-damaged", "after %s was stopped (%s): %s" % (what, exc, d))
        res, txt = done or ops.step_result(W, st, objs)
        objs.append(res)
        got = ops.snap(res, lazy=False)
        d = O.diff(O.canon(got), O.canon(want[j][0]), what, rtol=1e-9)
        if d is None and txt != want[j][1] and not st.get("m", "").startswith("get:"):
            d = "%s printed %r, undisturbed %r" % (what, txt[:200], want[j][1][:200])
        ops.close_all()
        if d:
            raise Violation("retry-differs", "%s(%s) retried after %s: %s  (retry != undisturbed)" % (
                what, st.get("a"), st.get("faults"), d))
        if "new" in st and type(res).__module__.startswith("giddy"):
            born[j] = state(res)
    for o, w in zip(objs, want_end):
        if o is not None:
            d = O.diff(O.canon(ops.snap(o) if ops.figure_of(o) is None else w), O.canon(w), "object at the end", rtol=1e-9)
            if d:
                raise Violation("retry-differs", "%s: %s" % (type(o).__name__, d))
    ctx.sig = [[S.label(st), st.get("a"), st.get("faults")] for st in s["steps"]]
    ctx.event(ctx.sig)


def shrink(s):
    for i, st in enumerate(s["steps"]):
        put = lambda d: dict(s, steps=s["steps"][:i] + [d] + s["steps"][i + 1:])
        fs = st.get("faults", [])
        for j in range(len(fs)):
            yield put(dict(st, faults=fs[:j] + fs[j + 1:]))
    yield from ops.shrink_session(s)
    for i, st in enumerate(s["steps"]):
        put = lambda d: dict(s, steps=s["steps"][:i] + [d] + s["steps"][i + 1:])
        fs = st.get("faults", [])
        for j in range(len(fs)):
            for f in F.shrink_fault(fs[j]):
                yield put(dict(st, faults=fs[:j] + [f] + fs[j + 1:]))
