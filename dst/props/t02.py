from .. import faults as F, observe as O, ops, procstate, rngseam as R, sched, session as S
from ..boot import G
from ..core import Violation

ID = "T02"
PLAN = {"quick": (2600, 55), "thorough": (50000, 850)}
RULE = ("a run = two to four threads doing analyses (and method calls on their own results) on one shared world of arrays and weights, interleaved by the seeded scheduler at lines or bytecodes of the library, "
        "each thread with its own state of the random stream; every result is compared with the thread running alone, and the inputs with what they were. "
        "Non-trivial: the baton changed hands inside the library; distinct by interleaving")
STATES = "distinct interleavings (sequence of places where the baton changed hands)"


def gen(rng, i, tier):
    w = ops.gen_world(rng, n=rng.randrange(4, 8))
    n = w["n"]
    mode = rng.random()
    names = None
    if mode < 0.35:      # analyses that use the same weights
        names = ["SpatialTau", "Tau_Local_Neighbor", "Tau_Local_Neighborhood", "LISA_Markov", "Spatial_Markov", "Rose",
                 "Spatial_Markov_discrete"]
    elif mode < 0.7:
        names = [ops.gen_name(rng)]
    ths = []
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        steps = []
        for _ in range(rng.choice([1, 1, 2])):
            st = ops.gen_new(rng, n, names)
            if ths and names and len(names) == 1 and rng.random() < 0.8:     # as the first thread, but for one argument
                a = dict(ths[0]["steps"][0]["a"])
                c = rng.choice(sorted(st["a"]) + [min(st["a"], key=list(st["a"]).index)] * 2) if st["a"] else None
                st["a"] = {**a, **({c: st["a"][c]} if c in st["a"] else {})}
            if st["a"].get("P", 0) > 3:
                st["a"]["P"] = 3
            steps.append(st)
            cls = ops.result_class(st["new"])
            j = len(steps) - 1
            if rng.random() < 0.5:
                c = ops.gen_on(rng, n, j, cls)
                if c and not ops.plots(c, cls):
                    if c["a"].get("P", 0) > 3:
                        c["a"]["P"] = 3
                    steps.append(c)
        ths.append({"steps": steps, "rng": R.gen(rng, n)})
    return {"world": w, "threads": ths, "sched": sched.gen_policy(rng)}


def work(W, steps):
    objs, out = [], []
    for st in steps:
        if S.skip(st, objs):
            objs.append(None)
            continue
        try:
            res = ops.call(W, st, objs)
        except Exception as e:
            res = ops.Raised(e)
        objs.append(res)
        out.append((S.label(st), res if st.get("m", "").startswith("get:") or "on" in st else None,
                    ops.snap(res, lazy=False)))
    return out, [ops.snap(o, lazy=False) for o in objs]


def interleave(s):
    def alone(t, count=False):
        W = ops.World(s["world"])
        R.apply(t["rng"])
        rec = F.recorder("line")
        with ops.captured():
            if count:
                with rec:
                    return work(W, t["steps"]), R.digest(), rec.count
            return work(W, t["steps"]), R.digest(), {}

    def strip(x):
        (a, b), c, d = x
        return ([(l, None, v) for l, _, v in a], b), c, d
    want = [F.forked(lambda t=t: strip(alone(t, s["sched"]["kind"] in ("targets", "priority")))) for t in s["threads"]]
    counts = {}
    for _, _, c in want:
        for k, v in c.items():
            counts[k] = counts.get(k, 0) + v
    with sched.lock_seam():
        W = ops.World(s["world"])
        before = W.prints()
        sc = sched.Sched(sched.policy(s["sched"], counts), G["root"], s["sched"]["gran"])
        for t in s["threads"]:
            sc.add(lambda t=t: work(W, t["steps"]), R.state(t["rng"]))
        state = procstate.take()
        with ops.captured():
            sc.run()
        if not sc.failure:
            sc.left = procstate.diff(state, procstate.take())
            if sc.left is None and ops.WARN["before"] != ops.WARN["after"]:
                sc.left = "warnings: the filters now start with %s" % (ops.WARN["after"][0][:2],)
    return W, before, want, sc


def run(s, ctx):
    W, before, want, sc = interleave(s)
    labels = [[S.label(x) for x in t["steps"]] for t in s["threads"]]
    if sc.failure:
        raise Violation("stuck", "%s: %s" % (labels, sc.failure))
    bad = ops.changed(before, W.prints())
    if bad:
        raise Violation("input-changed:" + bad, "threads %s changed the shared %s" % (labels, bad))
    if sc.left:
        raise Violation("state-changed:" + sc.left.split(":")[0].split(" was ")[0], "threads %s left process-wide state changed: %s" % (labels, sc.left))
    for t, (w, _, _) in zip(sc.ts, want):
        if t.exc is not None:
            raise Violation("thread-died", "thread %d of %s: %r" % (t.idx, labels, t.exc))
        for g, x in zip(t.result[0], w[0]):
            d = O.diff(O.canon(g[2]), O.canon(x[2]), g[0], rtol=1e-9)
            if d:
                raise Violation("disturbed", "thread %d of %s: %s  (concurrent != alone)" % (t.idx, labels, d))
        for g, x in zip(t.result[1], w[1]):
            d = O.diff(O.canon(g), O.canon(x), "object", rtol=1e-9)
            if d:
                raise Violation("disturbed", "thread %d of %s: at the end %s  (concurrent != alone)" % (t.idx, labels, d))
    ctx.hit("fault:preemption", len(sc.switches))
    ctx.hit("policy:" + s["sched"]["kind"] + "/" + s["sched"]["gran"])
    ctx.hit("steps", sc.step)
    for l in labels:
        for x in l:
            ctx.hit("op:" + x)
    ctx.nontrivial = bool(sc.switches)
    ctx.sig = sc.trail
    ctx.state(sc.trail)
    ctx.event(sc.trail)


def shrink(s):
    if s["sched"]["kind"] != "explicit":
        for i in range(len(s["threads"])):
            if len(s["threads"]) > 2:
                yield dict(s, threads=s["threads"][:i] + s["threads"][i + 1:])
        for i, t in enumerate(s["threads"]):
            for c in ops.shrink_session(t):
                yield dict(s, threads=s["threads"][:i] + [c] + s["threads"][i + 1:])
    for p in sched.shrink_policy(s["sched"], lambda: F.forked(lambda: interleave(s)[3].switches)):
        yield dict(s, sched=p)
