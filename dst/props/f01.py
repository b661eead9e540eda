from .. import faults as F, observe as O, ops, rngseam as R
from ..core import Violation

ID = "F01"
PLAN = {"quick": (1500, 45), "thorough": (60000, 850)}
RULE = ("a run = one Markov-type object and a sequence of lazy reads, several of them stopped by an interrupt, a timeout, exhausted memory or stack at a chosen line of the library or in a chosen call out of it, by a failing write to standard output, or by strict floating point and warning settings, then all attributes read in random order; "
        "an injected error must reach the caller and all values must equal those of an undisturbed object. Non-trivial: at least one fault fired; distinct by class and faults")
STATES = "distinct (class, attribute, place of the fault)"
KINDS = ["Spatial_Markov", "Spatial_Markov", "Spatial_Markov", "Spatial_Markov_discrete", "LISA_Markov", "Markov", "FullRank_Markov", "GeoRank_Markov"]


def gen(rng, i, tier):
    w = ops.gen_world(rng, n=rng.randrange(4, 8))
    name = rng.choice(KINDS)
    a = ops.pick(rng, ops.OPS[name]["choices"])
    if "fill" in a and rng.random() < 0.6:
        a["fill"] = True
    if "P" in a and rng.random() < 0.7:
        a["P"] = 0
    lazy = ops.LAZY[ops.result_class(name)]
    reads = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        get = rng.choice(lazy)
        mode = rng.choice(["line", "line", "line", "call", "call", "strict"] + ["out"] * (3 if get == "sojourn_time" else 0))
        reads.append({"get": get, "mode": mode, "fault": F.gen_fault(rng, mode) if rng.random() < 0.85 else None})
    end = list(lazy)
    rng.shuffle(end)
    return {"world": w, "new": {"new": name, "a": a, "rng": {"kind": "seed", "seed": i}}, "reads": reads, "end": end}


def build(s):
    o, _ = ops.step_result(ops.World(s["world"]), s["new"], [])
    if isinstance(o, ops.Raised):
        raise Violation("exception", "%s raised %s: %s" % (s["new"], o.kind, o.msg))
    return o


def run(s, ctx):
    lazy = sorted(s["end"])

    def reference():
        return {a: F.forked(lambda: ops.lazy_values(build(s), [a])[0][1]) for a in lazy}
    want = reference()
    o = build(s)
    cname = s["new"]["new"]
    pub = O.public(o)
    for c, r in enumerate(s["reads"]):
        if not r["fault"]:
            v = ops.lazy_values(o, [r["get"]])[0][1]
            d = O.diff(v, want[r["get"]], r["get"], rtol=1e-9)
            if d:
                raise Violation("wrong-after-fault", "%s: %s" % (cname, d))
            continue

        def dry():
            rec = F.recorder(r["mode"])
            with ops.captured(), rec:
                try:
                    getattr(o, r["get"])
                except Exception:
                    pass
            return rec.count
        inj = F.injector(r["mode"], F.forked(dry), r["fault"])
        exc = None
        with ops.captured():
            try:
                with inj:
                    getattr(o, r["get"])
            except BaseException as e:
                exc = e
        if inj.fired:
            if not isinstance(exc, F.KINDS[r["fault"]["kind"]]):
                raise Violation("swallowed", "%s.%s: the injected %s did not reach the caller, who got %r" % (
                    cname, r["get"], r["fault"]["kind"], exc))
            ctx.hit("fault:%s at %s" % (r["fault"]["kind"], r["mode"]))
            ctx.state(cname, r["get"], str(exc))
            ctx.nontrivial = True
        ctx.event(r["get"], str(exc))
    for a, v in ops.lazy_values(o, s["end"]):
        d = O.diff(v, want[a], a, rtol=1e-9)
        if d:
            raise Violation("wrong-after-fault", "%s after faults in %s: %s  (now != undisturbed)" % (
                cname, [r["get"] for r in s["reads"]], d))
    d = O.diff(O.canon(O.public(o)), O.canon(pub), "attributes", rtol=1e-12, atol=0.0)
    if d:
        raise Violation("wrong-after-fault", "%s: %s" % (cname, d))
    ctx.sig = [cname, s["new"]["a"], s["reads"]]


def shrink(s):
    for i in range(len(s["reads"])):
        if len(s["reads"]) > 1:
            yield dict(s, reads=s["reads"][:i] + s["reads"][i + 1:])
        r = s["reads"][i]
        put = lambda d: dict(s, reads=s["reads"][:i] + [d] + s["reads"][i + 1:])
        if r["fault"]:
            for f in F.shrink_fault(r["fault"]):
                yield put(dict(r, fault=f))
    for i in range(len(s["end"])):
        if len(s["end"]) > 1:
            yield dict(s, end=s["end"][:i] + s["end"][i + 1:])
    for c, vs in ops.OPS[s["new"]["new"]]["choices"].items():
        if s["new"]["a"].get(c) != vs[0]:
            yield dict(s, new=dict(s["new"], a=dict(s["new"]["a"], **{c: vs[0]})))
