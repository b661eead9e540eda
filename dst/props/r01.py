import numpy as np

from .. import inputs as I, models as M, rngseam as R
from ..boot import G
from ..util import any_scheme, draws, FRESH, need, same, exact, sut, smaller_ints

ID = "R01"
PLAN = {"quick": (6000, 60), "thorough": (60000, 800)}
RULE = ("a run = one data set, regime vector, P and scripted random stream; simulated relabelings recomputed by a "
        "reference model from the same stream. Non-trivial: P > 0, at least two regimes and at least one relabeling whose "
        "statistic differs from the observed one; distinct by simulated statistics")
STATES = "distinct (observed, simulated) statistics"


def gen(rng, i, tier):
    n = I.size(rng, 3, 13, [140, 300, 600])
    t = rng.randrange(2, 6) if rng.random() < 0.93 or n > 20 else rng.choice([9, 10, 14, 17, 24, 33])
    nreg = rng.randrange(1, min(n, 5) + 1) if n < 20 else rng.choice([1, 1, 2, 5, n // 2])
    names = rng.choice([list(range(10, 10 + nreg)), ["r%d" % a for a in range(nreg)],
                        [0.5 + a for a in range(nreg)], [3] * nreg])
    reg = [names[rng.randrange(nreg)] for _ in range(n)]
    while True:
        y = I.vals(rng, n, t)
        a = np.array(y["a"], dtype=float)
        d = np.column_stack([M.avg_ranks(a[:, j]) for j in range(t)])
        if np.abs(np.diff(d, axis=1)).sum(axis=0).min() > 0:
            break
    return {"y": y, "regime": reg, "P": I.perms(rng, n, [0, 1, 2, 5, 9, 19, 49, 99]), "rng": R.gen(rng, n)}


def run(s, ctx):
    Theta = G["rank"].Theta
    y = I.arr(s["y"])
    regime = np.array(s["regime"])
    P = s["P"]
    R.apply(s["rng"])
    t = sut("Theta", Theta, y, regime, P)
    labels = list(s["regime"])
    regs = sorted(set(labels))
    obs = M.theta(y, labels, regs)
    same(np.ravel(t.theta), obs, "observed", "theta")
    if P == 0:
        for a in ("sim", "pvalue_left", "pvalue_right", "z"):
            need(not hasattr(t, a), "inference-attributes", "permutations=0 but %s is present" % a)
        return
    rep = np.asarray(t.sim, dtype=float)
    need(rep.shape == (P + 1, len(obs)), "sim-shape", "sim has shape %s, expected %s" % (rep.shape, (P + 1, len(obs))))

    def model(scheme):
        d = draws(R.twin(s["rng"]), scheme, len(labels))
        sim = [obs] + [M.theta(y, [labels[j] for j in next(d)], regs) for _ in range(P)]
        same(rep, np.array(sim), "sim", "sim")
        return sum(bool((v != obs).any()) for v in sim)

    differ = any_scheme(FRESH, model)
    exact(np.asarray(t.pvalue_left), (rep <= rep[0]).sum(axis=0) / (P + 1.0), "pvalue", "pvalue_left")
    exact(np.asarray(t.pvalue_right), (rep > rep[0]).sum(axis=0) / (P + 1.0), "pvalue", "pvalue_right")
    with np.errstate(all="ignore"):
        z = (rep[0] - rep.mean(axis=0)) / rep.std(axis=0)
    ok = np.isfinite(z) & (rep.std(axis=0) > 1e-9)
    same(np.asarray(t.z)[ok], z[ok], "z", "z")
    need(t.permutations == P, "attribute", "permutations")
    ctx.nontrivial = differ > 0 and len(regs) > 1
    ctx.hit("relabelings", P)
    ctx.hit("relabelings tied with observed", int((rep[1:] == rep[0]).all(axis=1).sum()))
    ctx.hit(R.label(s["rng"]))
    ctx.sig = [rep.round(9).tolist()]
    ctx.state(rep.round(9).tolist())
    ctx.event(rep.round(9).tolist(), np.asarray(t.pvalue_left).tolist())


def shrink(s):
    for p in smaller_ints(s["P"], 1):
        yield dict(s, P=p)
    n = len(s["regime"])
    for k in range(n - 1, -1, -1):
        if n > 2:
            yield dict(s, regime=s["regime"][:k] + s["regime"][k + 1:],
                       y=dict(s["y"], a=s["y"]["a"][:k] + s["y"]["a"][k + 1:]))
    t = len(s["y"]["a"][0])
    for j in range(t):
        if t > 2:
            yield dict(s, y=dict(s["y"], a=[r[:j] + r[j + 1:] for r in s["y"]["a"]]))
    for r in R.shrink(s["rng"]):
        yield dict(s, rng=r)
