import numpy as np

from .. import inputs as I, models as M, rngseam as R, shrink as Z
from ..boot import G
from ..util import any_scheme, draws, FRESH, need, same, exact, sut, smaller_ints

ID = "R07"
PLAN = {"quick": (3800, 60), "thorough": (30000, 800)}
RULE = ("a run = one panel, weights, class configuration (pooled/per period/user cutoffs/categories, k and m equal or not), P and scripted random stream; "
        "every simulated x2 recomputed by a reference model from the same stream. Non-trivial: simulated values differ from the observed x2; distinct by simulated values")
STATES = "distinct simulated distributions"


def gen(rng, i, tier):
    n, t = I.size(rng, 4, 12, [140, 300]), rng.randrange(2, 6)
    s = {"w": I.gen_w(rng, n, ids=rng.choice(["int", "str", "intshift"]), self_w=0.1, sym=rng.random() < 0.8, islands=0.1),
         "P": I.perms(rng, n, [1, 2, 3, 5, 9, 19], 0.004), "rng": R.gen(rng, n), "fill": rng.random() < 0.3,
         "discrete": rng.random() < 0.25, "fixed": rng.random() < 0.6,
         "k": rng.choice([2, 3, 4, 5]), "m": rng.choice([1, 2, 3, 4, 5]), "cut": None, "lcut": None}
    if s["discrete"]:
        k = rng.randrange(2, 5)
        names = rng.choice([list(range(k)), [3, 7, 11, 20][:k], ["a", "B", "c", "dd"][:k]])
        s["y"] = {"a": I.classes(rng, n, t, k, names), "dt": "U" if isinstance(names[0], str) else "i8"}
        if rng.random() < 0.5:
            s["w"]["tr"] = "O"
            s["w"]["edges"] = [[a, b, 1.0] for a, b, _ in s["w"]["edges"]]
    else:
        s["y"] = I.panel(rng, n, t) if rng.random() < 0.6 else I.vals(rng, n, t)
        flat = sorted({v for r in s["y"]["a"] for v in r})
        if rng.random() < 0.3:
            s["cut"] = sorted(rng.sample(flat, min(len(flat), rng.randrange(1, 4))))
        if rng.random() < 0.3:
            hi = max(flat)
            s["lcut"] = sorted({round(rng.uniform(0.2, hi * 1.2), 2) for _ in range(rng.randrange(1, 5))})
    return s


def pooled(v, cuts):
    return np.array([[M.bins_of(x, cuts) for x in row] for row in v])


def lags(y, w, s, classes, cuts, m):
    """lag classes of a map, given cutoffs (None: per period quantiles)"""
    import mapclassify as mc
    from libpysal import weights
    if s["discrete"]:
        return weights.lag_categorical(w, np.searchsorted(classes, y), ties="tryself")
    ly = weights.lag_spatial(w, y)
    if cuts is None:
        return np.array([mc.Quantiles(ly[:, j], k=m).yb for j in range(ly.shape[1])]).T
    return pooled(ly, cuts)


def run(s, ctx):
    import mapclassify as mc
    from libpysal import weights
    y, w = I.arr(s["y"]), I.w_of(s["w"])
    P, k, m = s["P"], s["k"], s["m"]
    R.apply(s["rng"])
    r = sut("Spatial_Markov", G["markov"].Spatial_Markov, y, w, k=k, m=m, permutations=P, fixed=s["fixed"],
            discrete=s["discrete"], cutoffs=s["cut"], lag_cutoffs=s["lcut"], fill_empty_classes=s["fill"])
    end = np.random.get_state()
    # ---- the model, on the same stream
    R.apply(s["rng"])
    w = I.w_of(s["w"])
    classes, cuts, lcuts = None, None, None
    if s["discrete"]:
        classes = np.unique(y)
        k = m = len(classes)
        ids = np.searchsorted(classes, y)
    elif s["cut"] is not None:
        ids, k = pooled(y, s["cut"]), len(s["cut"]) + 1
    elif s["fixed"]:
        b = mc.Quantiles(y.flatten(), k=k).bins
        ids, k = pooled(y, b[:-1]), len(b)
    else:
        ids = np.array([mc.Quantiles(y[:, j], k=k).yb for j in range(y.shape[1])]).T
    if not s["discrete"]:
        if s["lcut"] is not None:
            lcuts, m = s["lcut"], len(s["lcut"]) + 1
        elif s["fixed"]:
            b = mc.Quantiles(weights.lag_spatial(w, y).flatten(), k=m).bins
            lcuts, m = b[:-1], len(b)
    C = M.markov_counts(ids, k)
    T0 = M.lag_counts(ids, lags(y, w, s, classes, lcuts, m), k, m)
    exact(np.asarray(r.transitions, dtype=float), C, "observed", "transitions")
    exact(np.asarray(r.T, dtype=float), T0, "observed", "T")
    obs = sum(M.chi2_stat(T, C) for T in T0)
    same(float(r.x2), obs, "observed", "x2")
    rep = np.asarray(r.x2_realizations, dtype=float)
    need(rep.size == P, "sim-shape", "x2_realizations has shape %s for P=%d" % (rep.shape, P))
    rep = rep.ravel()
    at = np.random.get_state()

    def model(scheme):
        np.random.set_state(at)
        d = draws(np.random, scheme, len(y))
        sim = []
        for _ in range(P):
            T = M.lag_counts(ids, lags(y[next(d)], w, s, classes, lcuts, m), k, m)
            sim.append(sum(M.chi2_stat(t, C) for t in T))
        same(rep, np.array(sim, dtype=float), "sim", "x2_realizations")
        need(R.same(end, np.random.get_state()), "stream", "random numbers were used beyond the P permutations")

    any_scheme(FRESH, model)
    cnt = int((rep >= float(r.x2)).sum())
    exact(float(r.x2_rpvalue), (cnt + 1.0) / (P + 1.0), "pvalue", "x2_rpvalue")
    exact(np.asarray(r.T, dtype=float), T0, "observed-after", "T after the permutations")
    need(int(r.m) == m and int(r.k) == k, "observed-after", "k, m = %s, %s, expected %s, %s" % (r.k, r.m, k, m))
    ctx.hit("permutations", P)
    ctx.hit(R.label(s["rng"]))
    ctx.hit("k != m", int(k != m))
    ctx.hit("discrete" if s["discrete"] else "pooled" if s["fixed"] else "per period")
    ctx.hit("user cutoffs", int(s["cut"] is not None))
    ctx.hit("user lag cutoffs", int(s["lcut"] is not None))
    ctx.nontrivial = bool((np.abs(rep - obs) > 1e-9).any())
    ctx.sig = [rep.round(6).tolist(), round(float(obs), 6)]
    ctx.state(ctx.sig)
    ctx.event(ctx.sig)


def shrink(s):
    for key in ("cut", "lcut"):
        if s[key]:
            yield dict(s, **{key: None})
            for j in range(len(s[key])):
                if len(s[key]) > 1:
                    yield dict(s, **{key: s[key][:j] + s[key][j + 1:]})
    for key in ("k", "m"):
        for v in smaller_ints(s[key], 2):
            yield dict(s, **{key: v})
    if s["fill"]:
        yield dict(s, fill=False)
    yield from Z.common(s, ["y"])
    yield from Z.cols(s, "y")
