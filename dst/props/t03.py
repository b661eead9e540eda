import sys

import numpy as np

from .. import faults as F, observe as O, ops, procstate, rngseam as R, sched, session as S
from ..core import Violation
from .s04 import state

ID = "T03"
PLAN = {"quick": (1800, 60), "thorough": (50000, 850)}
RULE = ("a run = a session in which, at chosen lines of the library, a handler (as for a signal, a finalizer or a hook) runs other analyses, method calls or attribute reads to their end in the same thread and then lets "
        "the interrupted operation go on; handlers are interrupted by handlers up to three deep and keep the random stream as they found it. Every result, outer and inner, is compared with the same steps run one after another. "
        "Non-trivial: a handler ran in the middle of an operation; distinct by operations and places")
STATES = "distinct (interrupted operation, place, what the handler did)"


def _methods(lazy):
    """(analysis, method of its result) pairs that compute something."""
    for name in sorted(ops.OPS):
        ms = ops.methods_of(ops.result_class(name))
        for m in sorted(ms):
            if not ms[m].get("plot") and m.startswith("get:") == lazy:
                yield name, m


METHODS, READS = list(_methods(False)), list(_methods(True))


def gen_inner(rng, n, objs, depth=0):
    """What a handler does: analyses of its own, or reads of objects the session holds."""
    if objs and rng.random() < 0.45:
        j = rng.choice(sorted(objs))
        lazy = ops.LAZY.get(objs[j], [])
        d = {"read": j, "names": rng.sample(lazy, min(len(lazy), rng.choice([1, 2])))}
    else:
        steps = [ops.gen_new(rng, n)]
        cls = ops.result_class(steps[0]["new"])
        c = ops.gen_on(rng, n, 0, cls) if rng.random() < 0.6 else None
        if c and not ops.plots(c, cls):
            steps.append(c)
        for st in steps:
            if st["a"].get("P", 0) > 3:
                st["a"]["P"] = 3
        d = {"steps": steps}
    if depth < 2 and rng.random() < 0.2:
        d["at"] = [gen_at(rng, n, objs, depth + 1)]
    return d


def gen_at(rng, n, objs, depth=0):
    return {"loc": round(rng.random(), 6), "occ": rng.choice([0.0, round(rng.random(), 6), 0.999999]), "by": rng.choice(["line", "function"]),
            "do": gen_inner(rng, n, objs, depth)}


def gen(rng, i, tier):
    w = ops.gen_world(rng)
    n = w["n"]
    steps, cls = [], {}
    same = rng.random() < 0.4
    perm = rng.random() < 0.24         # a method in the middle of the same method of another object
    kind, what = rng.choice(METHODS if rng.random() < 0.8 else READS)
    for j in range(2 if perm else rng.choice([1, 1, 2, 3])):
        st = None
        if perm:
            same = True
            st = ops.gen_on(rng, n, 0, cls[0], [what]) if j else ops.gen_new(rng, n, [kind])
        elif cls and rng.random() < 0.6:
            t = rng.choice(sorted(cls))
            st = ops.gen_on(rng, n, t, cls[t])
            if st and (st["m"] == "composite" or (ops.plots(st, cls[t]) and rng.random() > 0.2)):
                st = None
        if st is None:
            st = ops.gen_new(rng, n)
        if st["a"].get("P", 0) > 9:
            st["a"]["P"] = 9
        if perm and st.get("new") == "LISA_Markov":      # (so that some unit is significant)
            st["a"].update({"P": 9, "lev": rng.choice([0.3, 1.0])})
        if "new" in st:
            cls[j] = ops.result_class(st["new"])
            ready = {a: c for a, c in cls.items() if a != j}
        else:
            ready = dict(cls)
        st["at"] = [gen_at(rng, n, ready) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        for at in st["at"]:
            if same and "steps" in at["do"]:       # the very operation that is being interrupted
                first = {k: v for k, v in (st if "new" in st else steps[st["on"]]).items() if k != "at"}
                if rng.random() < 0.5:                 # (on other inputs)
                    first["a"] = ops.pick(rng, ops.OPS[first["new"]]["choices"])
                    first["a"].update({"P": 3} if first["a"].get("P", 0) > 3 else {})
                    if perm and first["new"] == "LISA_Markov":
                        first["a"].update({"P": 9, "lev": rng.choice([0.3, 1.0])})
                at["do"]["steps"] = [dict(first, rng=R.gen(rng, n))]
                if "new" not in st and not ops.plots(st, cls[st["on"]]):      # (and the same method)
                    at["do"]["steps"].append(dict({k: v for k, v in st.items() if k != "at"}, on=0, rng=R.gen(rng, n)))
        steps.append(st)
    return {"world": w, "steps": steps}


class Handler:
    """Runs what is to be done when the chosen lines are reached for the chosen time."""

    def __init__(self, plan, log):
        self.plan = plan          # [(line, occurrence, function)]
        self.root = F.G["root"]
        self.count = {}
        self.log = log
        self.ran = 0

    def glob(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(self.root) else None

    def local(self, frame, event, arg):
        if event == "line":
            key = (frame.f_code.co_filename[len(self.root):], frame.f_lineno)
            c = self.count[key] = self.count.get(key, 0) + 1
            for p in self.plan:
                if not p[3] and p[0] == key and p[1] == c:
                    p[3] = True
                    sys.settrace(None)
                    st = np.random.get_state()
                    try:
                        sys.call_tracing(p[2], ())      # (so that handlers can be interrupted too)
                    finally:
                        np.random.set_state(st)
                        sys.settrace(self.glob)
                    self.ran += 1
        return self.local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)


def lines(fn):
    def dry():
        rec = F.recorder("line")
        with ops.captured(), rec:
            try:
                fn()
            except Exception:
                pass
        return rec.count
    return F.forked(dry)


def place(counts, at):
    keys = sorted(counts)
    if not keys:
        return None
    key = sched.spot(keys, at["loc"], at.get("by"))
    return key, 1 + min(counts[key] - 1, int(at["occ"] * counts[key]))


def inner(W, objs, d, log, what, ctx):
    """A handler: returns nothing, appends what it got to the log."""
    for sub in d.get("at", []):
        counts = lines(lambda: body(W, objs, d, []))
        at = place(counts, sub)
        if at is None:
            continue
        hs = Handler([[at[0], at[1], lambda: inner(W, objs, sub["do"], log, what + " > handler", ctx), False]], log)
        with hs:
            body(W, objs, d, log)
        if ctx and hs.ran:
            ctx.hit("fault:handler inside a handler")
        return
    body(W, objs, d, log)


def body(W, objs, d, log):
    if "read" in d:
        o = objs[d["read"]]
        out = "gone"
        if o is not None and not isinstance(o, ops.Raised):
            if ops.figure_of(o) is None and type(o).__module__.startswith("giddy"):
                # (what permute adds belongs to the call that may be running)
                out = [(k, v) for k, v in state(o).items() if k in W.born[d["read"]]], ops.lazy_values(o, d["names"])
        log.append((("read", d["read"], tuple(d["names"])), out))
        return
    mine = []
    for st in d["steps"]:
        if S.skip(st, mine):
            mine.append(None)
            continue
        R.apply(st["rng"])
        with ops.captured():
            try:
                res = ops.call(W, st, mine)
            except Exception as e:
                res = ops.Raised(e)
        mine.append(res)
        log.append((("handler", S.label(st)), ops.snap(res)))


def note(W, objs):
    """Remembers what an object showed when it was made."""
    o = objs[-1]
    W.__dict__.setdefault("born", {})[len(objs) - 1] = set(state(o)) if type(o).__module__.startswith("giddy") else ()


def expected_inner(W, objs, d):
    def go():
        log = []
        body(W, objs, d, log)
        return log
    return F.forked(go)


def flat(d):
    out = [d]
    for a in d.get("at", []):
        out += flat(a["do"])
    return out


def run(s, ctx):
    def one_by_one():
        W = ops.World(s["world"])
        objs, out = [], []
        for st in s["steps"]:
            if S.skip(st, objs):
                objs.append(None)
                out.append(None)
                continue
            inn = []
            for at in st["at"]:
                for d in flat(at["do"]):
                    inn.append(expected_inner(W, objs, d))
            res, txt = ops.step_result(W, st, objs)
            objs.append(res)
            note(W, objs)
            out.append((ops.snap(res, lazy=False), txt, inn))
            ops.close_all()
        return out, [ops.snap(o) if o is not None and ops.figure_of(o) is None else None for o in objs]

    want, want_end = F.forked(one_by_one)
    with sched.lock_seam():
        W = ops.World(s["world"])
    before = W.prints()
    was = procstate.take()
    objs = []
    for j, st in enumerate(s["steps"]):
        if S.skip(st, objs):
            objs.append(None)
            continue
        what = S.label(st)

        def plain():
            R.apply(st["rng"])
            ops.call(W, st, objs)
        logs, plan = [], []
        for at in st["at"]:
            if len(plan) == 0:
                counts = lines(plain)
            p = place(counts, at)
            if p is None:
                continue
            log = []
            logs.append((at, log, p))
            plan.append([p[0], p[1], lambda at=at, log=log: inner(W, objs, at["do"], log, what, ctx), False])
        R.apply(st["rng"])
        h = Handler(plan, None)
        warned = ops.warn_state()
        with ops.captured() as buf:
            try:
                with h:
                    res = ops.call(W, st, objs)
            except Exception as e:
                res = ops.Raised(e)
        if warned != ops.warn_state():
            raise Violation("state-changed:warnings", "%s with handlers changed how Python treats warnings" % what)
        got = ops.snap(res, lazy=False)
        ops.close_all()
        objs.append(res)
        note(W, objs)
        places = ["%s:%d" % p[0] for _, _, p in logs]
        if h.ran:
            ctx.hit("fault:handler in the middle of an operation", h.ran)
            ctx.nontrivial = True
            ctx.state(what, places, [sorted(at["do"]) for at, _, _ in logs])
        d = O.diff(O.canon(got), O.canon(want[j][0]), what, rtol=1e-9)
        if d is None and buf.getvalue() != want[j][1] and not st.get("m", "").startswith("get:"):
            d = "%s printed %r, expected %r" % (what, buf.getvalue()[:200], want[j][1][:200])
        if d:
            raise Violation("outer-disturbed", "%s with handlers %s at %s: %s  (with handlers != without)" % (
                what, [[x[0] for x in log] for _, log, _ in logs], places, d))
        k = 0
        for at in st["at"]:
            ds = flat(at["do"])
            exp = [e for q in range(len(ds)) for e in want[j][2][k + q]]
            k += len(ds)
            log = [lg for a2, lg, _ in logs if a2 is at]
            for g in (log[0] if log else []):
                es = [e for e in exp if e[0] == g[0]]
                ds_ = [O.diff(O.canon(g[1]), O.canon(e[1]), str(g[0]), rtol=1e-9) for e in es]
                if not es or all(ds_):
                    raise Violation("handler-disturbed", "a handler in the middle of %s at %s: %s  (in the handler != alone)" % (
                        what, places, ds_[0] if ds_ else "nothing to compare with"))
        ctx.hit("op:" + what)
    left = procstate.diff(was, procstate.take())
    if left:
        raise Violation("state-changed:" + left.split(":")[0].split(" was ")[0], "%s with handlers left process-wide state changed: %s" % (
            [S.label(x) for x in s["steps"]], left))
    bad = ops.changed(before, W.prints())
    if bad:
        raise Violation("input-changed:" + bad, "%s with handlers changed the caller's %s" % ([S.label(x) for x in s["steps"]], bad))
    for o, w in zip(objs, want_end):
        if w is not None:
            d = O.diff(O.canon(ops.snap(o)), O.canon(w), "object at the end", rtol=1e-9)
            if d:
                raise Violation("outer-disturbed", "%s: %s  (with handlers != without)" % (type(o).__name__, d))
    ctx.sig = [[S.label(st), st.get("a"), st["at"]] for st in s["steps"]]
    ctx.event([S.label(st) for st in s["steps"]])


def shrink(s):
    for i, st in enumerate(s["steps"]):
        put = lambda d: dict(s, steps=s["steps"][:i] + [d] + s["steps"][i + 1:])
        for j in range(len(st["at"])):
            yield put(dict(st, at=st["at"][:j] + st["at"][j + 1:]))
    for c in ops.shrink_session(s):
        # handlers that read objects refer to steps by number
        if all("read" not in d or d["read"] < i for i, st in enumerate(c["steps"]) for a in st["at"] for d in flat(a["do"])):
            if len(c["steps"]) == len(s["steps"]) or not any("read" in d for st in s["steps"] for a in st["at"] for d in flat(a["do"])):
                yield c
    for i, st in enumerate(s["steps"]):
        put = lambda d: dict(s, steps=s["steps"][:i] + [d] + s["steps"][i + 1:])
        for j, a in enumerate(st["at"]):
            if a["occ"] != 0.0:
                yield put(dict(st, at=st["at"][:j] + [dict(a, occ=0.0)] + st["at"][j + 1:]))
            if a["do"].get("at"):
                yield put(dict(st, at=st["at"][:j] + [dict(a, do={k: v for k, v in a["do"].items() if k != "at"})] + st["at"][j + 1:]))
