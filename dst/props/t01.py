from .. import faults as F, observe as O, ops, sched, session as S
from ..boot import G
from ..core import Violation

ID = "T01"
PLAN = {"quick": (2200, 50), "thorough": (60000, 850)}
RULE = ("a run = one Markov-type object and two to four threads reading its lazy attributes, interleaved by the seeded scheduler at lines or bytecodes of the library; "
        "each value is compared with a sequential life at the moment it is returned and again at the end. Non-trivial: the baton changed hands inside the library; distinct by interleaving")
STATES = "distinct interleavings (sequence of places where the baton changed hands)"
KINDS = ["Spatial_Markov", "Spatial_Markov", "Spatial_Markov", "Spatial_Markov_discrete", "LISA_Markov", "Markov", "FullRank_Markov", "GeoRank_Markov"]


def gen(rng, i, tier):
    w = ops.gen_world(rng, n=rng.randrange(4, 8))
    name = rng.choice(KINDS)
    a = ops.pick(rng, ops.OPS[name]["choices"])
    if "P" in a and rng.random() < 0.7:
        a["P"] = 0
    if rng.random() < 0.6 and "fill" in a:
        a["fill"] = True
    lazy = ops.LAZY[ops.result_class(name)]
    few = rng.sample(lazy, min(len(lazy), rng.choice([1, 2, 3])))
    th = [[rng.choice(few if rng.random() < 0.8 else lazy) for _ in range(rng.choice([1, 1, 2, 3]))]
          for _ in range(rng.choice([2, 2, 2, 3, 4]))]
    if rng.random() < 0.3:       # one attribute, read by all at once
        th = [[few[0]] for _ in th]
    pre = [rng.choice(lazy) for _ in range(rng.choice([0, 0, 0, 1]))]
    pol = sched.gen_policy(rng)
    if rng.random() < 0.2:       # everything is there already: many short reads, tightly interleaved
        few = rng.sample(lazy, min(len(lazy), rng.choice([2, 2, 3, 4])))
        th = [[rng.choice(few) for _ in range(rng.choice([4, 8, 12]))] for _ in range(rng.choice([2, 2, 3]))]
        pre = list(few)
        pol = {"kind": "random", "seed": pol["seed"], "gran": pol["gran"], "p": rng.choice([0.1, 0.3, 0.6])}
    return {"world": w, "new": {"new": name, "a": a, "rng": {"kind": "seed", "seed": i}}, "threads": th, "pre": pre, "sched": pol}


def build(s):
    W = ops.World(s["world"])
    o, _ = ops.step_result(W, s["new"], [])
    if isinstance(o, ops.Raised):
        raise Violation("exception", "%s raised %s: %s" % (s["new"], o.kind, o.msg))
    ops.lazy_values(o, s["pre"])
    return o


def read(o, a):
    try:
        v = getattr(o, a)
    except Exception as e:
        return None, ("raised", type(e).__name__, str(e)[:200])
    return v, O.canon(v)


def interleave(s):
    def alone():
        out = {}
        for a in sorted({a for t in s["threads"] for a in t}):
            out[a] = F.forked(lambda: ops.lazy_values(build(s), [a])[0][1])
        o = build(s)
        rec = F.recorder("line")
        with ops.captured(), rec:
            for t in s["threads"]:
                for a in t:
                    read(o, a)
        return out, rec.count

    want, counts = F.forked(alone)
    with sched.lock_seam():
        o = build(s)
        sc = sched.Sched(sched.policy(s["sched"], counts), G["root"], s["sched"]["gran"])
        for t in s["threads"]:
            sc.add(lambda t=t: [(a,) + read(o, a) for a in t])
        with ops.captured():
            sc.run()
    return o, want, sc


def run(s, ctx):
    o, want, sc = interleave(s)
    if sc.failure:
        raise Violation("stuck", "%s reading %s: %s" % (s["new"]["new"], s["threads"], sc.failure))
    for t in sc.ts:
        if t.exc is not None:
            raise Violation("thread-died", "thread %d: %r" % (t.idx, t.exc))
        for a, raw, seen in t.result:
            for v, when in ((seen, "when read"), (seen if raw is None else O.canon(raw), "at the end")):
                d = O.diff(v, want[a], a, rtol=1e-9)
                if d:
                    raise Violation("wrong-read", "%s.%s read by thread %d of %s: %s  (%s != sequential)" % (
                        s["new"]["new"], a, t.idx, s["threads"], d, when))
    for a, v in ops.lazy_values(o, sorted(want)):
        d = O.diff(v, want[a], a, rtol=1e-9)
        if d:
            raise Violation("wrong-read", "%s read after the threads ended: %s" % (s["new"]["new"], d))
    ctx.hit("fault:preemption", len(sc.switches))
    ctx.hit("policy:" + s["sched"]["kind"] + "/" + s["sched"]["gran"])
    ctx.hit("steps", sc.step)
    ctx.nontrivial = bool(sc.switches)
    ctx.sig = [s["new"]["new"], sc.trail]
    ctx.state(s["new"]["new"], sc.trail)
    ctx.event(sc.trail)


def shrink(s):
    for i in range(len(s["threads"])):
        if len(s["threads"]) > 2 and s["sched"]["kind"] != "explicit":
            yield dict(s, threads=s["threads"][:i] + s["threads"][i + 1:])
    if s["sched"]["kind"] != "explicit":
        for i, t in enumerate(s["threads"]):
            if len(t) > 1:
                for j in range(len(t)):
                    yield dict(s, threads=s["threads"][:i] + [t[:j] + t[j + 1:]] + s["threads"][i + 1:])
        if s["pre"]:
            yield dict(s, pre=[])
    for p in sched.shrink_policy(s["sched"], lambda: F.forked(lambda: interleave(s)[2].switches)):
        yield dict(s, sched=p)
