import numpy as np

from .. import inputs as I, rngseam as R, shrink as Z
from ..boot import G
from ..util import any_scheme, draws, RUNNING, need, same, exact, sut, smaller_ints, drop_each

ID = "R06"
PLAN = {"quick": (5200, 60), "thorough": (40000, 800)}
RULE = ("a run = one data set, weights, k and a sequence of permute calls (any P, alternative, stream); sector counts of every permutation recomputed by "
        "a reference model that follows the arrangement from call to call on the same stream. Non-trivial: some permutation's counts differ from the observed ones; "
        "distinct by simulated counts")
STATES = "distinct simulated count tables"
ALTS = ["two.sided", "two-sided", "positive", "negative", "Two.Sided", "POSITIVE", "Negative"]


def gen(rng, i, tier):
    n = I.size(rng, 4, 13, [140, 300, 300, 700], 0.04)
    k = rng.choice([4, 8, 4, 8, 1, 2, 3, 5, 6, 7, 12, 16, 30])
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        alt = rng.choice(ALTS if k in (4, 8) else ALTS[:2])
        calls.append({"P": I.perms(rng, n, [1, 2, 5, 9, 19, 49]), "alt": alt, "rng": R.gen(rng, n)})
    Y = I.vals(rng, n, 2, kind=rng.choice("fffffmi"))
    shape = None
    if n < 14 and rng.random() < 0.1:     # values change places: lags change by rounding errors only
        shape = "full"
        for r in Y["a"]:
            r[0] = r[1] = round(r[0] / 7, 3)
        for _ in range(rng.choice([1, 1, 2])):
            a, b, c = rng.sample(range(n), 3)
            Y["a"][a][1], Y["a"][b][1] = Y["a"][b][1], Y["a"][a][1]
            Y["a"][c][1] += rng.choice([0, 1, -1])
        Y["dt"] = "f8"
    return {"Y": Y,
            "w": I.gen_w(rng, n, ids=rng.choice(["int", "str", "intshift"]), self_w=0.2, sym=rng.random() < 0.7, shape=shape,
                     islands=0.15),
            "k": k, "calls": calls}


def sectors(Y, w, k):
    """(certain counts, possible extra counts): vectors within rounding of a cut may fall on either side."""
    from libpysal.weights import lag_spatial
    wY = lag_spatial(w, np.asarray(Y, dtype=float))
    dx, dy = Y[:, 1] - Y[:, 0], wY[:, 1] - wY[:, 0]
    sure, may = np.zeros(k, int), np.zeros(k, int)
    for a, b in zip(dx.astype(float), dy):
        if abs(a) < 1e-9 and abs(b) < 1e-9:
            may += 1
            continue
        u = np.arctan2(b, a) / (2 * np.pi) * k
        u = u + k if u < 0 else u
        r = int(round(u))
        if abs(u - r) < 1e-8:
            for c in {r % k, (r - 1) % k}:
                may[c] += 1
        else:
            sure[int(np.floor(u))] += 1
    return sure, may


def check_counts(rep, Y, w, k, what):
    n = len(Y)
    sure, may = sectors(Y, w, k)
    rep = np.asarray(rep)
    need(rep.shape == (k,), "counts-shape", "%s has shape %s for k=%d" % (what, rep.shape, k))
    need(rep.sum() == n, "counts-sum", "%s = %s sums to %s, not to n=%d" % (what, rep.tolist(), rep.sum(), n))
    need(bool(((rep >= sure) & (rep <= sure + may)).all()), "counts",
         "%s = %s, expected %s (+ up to %s at cuts)" % (what, rep.tolist(), sure.tolist(), may.tolist()))


def run(s, ctx):
    Y, w, k = I.arr(s["Y"]), I.w_of(s["w"]), s["k"]
    r = sut("Rose", G["directional"].Rose, Y, w, k)
    check_counts(r.counts, Y, w, k, "counts")
    obs = np.array(r.counts)
    cur = Y.copy()
    pos = None
    table = []
    for c in s["calls"]:
        P, alt = c["P"], c["alt"]
        R.apply(c["rng"])
        sut("permute", r.permute, P, alt)
        rep = np.asarray(r.counts_perm)
        need(rep.shape == (P, k), "sim-shape", "counts_perm has shape %s" % (rep.shape,))

        def model(scheme):
            # from the last permuted map on (as now), or from the observed one each time
            nonlocal cur
            how, at = scheme
            d = draws(R.twin(c["rng"]), how, len(Y))
            for p in range(P):
                idx = next(d)
                now = (cur if at == "last" else Y)[idx]
                check_counts(rep[p], now, w, k, "counts_perm[%d]" % p)
                if (now == Y).all():
                    exact(rep[p], obs, "counts", "counts_perm[%d] (of the observed map itself)" % p)
            cur = cur[idx]

        any_scheme([(a, b) for b in ("last", "observed") for a in RUNNING], model)
        exact(np.asarray(r.counts), obs, "observed-changed", "counts")
        L = (rep >= obs).sum(axis=0)
        S = (rep <= obs).sum(axis=0)
        exact(np.asarray(r.larger_perm), L, "larger_perm", "larger_perm")
        exact(np.asarray(r.smaller_perm), S, "smaller_perm", "smaller_perm")
        same(np.asarray(r.expected_perm), rep.mean(axis=0), "expected_perm", "expected_perm")
        need(r.alternative == alt, "alternative", "alternative is %r after permute(%r)" % (r.alternative, alt))
        L, S = (L + 1) / (P + 1.0), (S + 1) / (P + 1.0)
        a = alt.lower().replace(".", "-")
        if a == "two-sided":
            p = np.where(L < 0.5, 2 * L, 2 * (1 - L))
        else:
            # sectors in which both coordinates move in the same direction
            mid = (np.arange(k) + 0.5) * 2 * np.pi / k
            joint = np.cos(mid) * np.sin(mid) > 0
            p = np.where(joint == (a == "positive"), L, S)
        same(np.asarray(r.p, dtype=float), p, "pvalue", "p (%s)" % alt)
        ctx.hit("permute:" + a)
        ctx.hit(R.label(c["rng"]))
        ctx.hit("permutations", P)
        ctx.nontrivial = ctx.nontrivial or bool((rep != obs).any())
        table.append([rep.astype(int).tolist(), p.round(9).tolist()])
    ctx.hit("repeated permute", len(s["calls"]) - 1)
    ctx.sig = [obs.tolist(), table]
    ctx.state(ctx.sig)
    ctx.event(ctx.sig)


def shrink(s):
    for c in drop_each(s["calls"]):
        yield dict(s, calls=c)
    for j, c in enumerate(s["calls"]):
        for p in smaller_ints(c["P"], 1):
            yield dict(s, calls=s["calls"][:j] + [dict(c, P=p)] + s["calls"][j + 1:])
        for r in R.shrink(c["rng"]):
            yield dict(s, calls=s["calls"][:j] + [dict(c, rng=r)] + s["calls"][j + 1:])
    yield from Z.common(s, ["Y"])
