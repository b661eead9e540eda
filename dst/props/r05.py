import numpy as np

from .. import inputs as I, models as M, rngseam as R, shrink as Z
from ..boot import G
from ..util import any_scheme, draws, RUNNING, need, same, exact, sut

ID = "R05"
PLAN = {"quick": (6000, 60), "thorough": (40000, 800)}
RULE = ("a run = two variables, regimes (now and then of a single unit), P and scripted random stream; every simulated concordance matrix recomputed by "
        "a reference model from the same stream. Non-trivial: P > 0, at least two regimes and some simulated matrix differs from the observed one; "
        "distinct by simulated values")
STATES = "distinct simulated distributions"


def gen(rng, i, tier):
    k = rng.choice([1, 2, 2, 3, 3, 4])
    n = I.size(rng, max(4, 2 * k), 13, [60, 140, 300], 0.02)
    names = rng.choice([list(range(5, 5 + k)), ["r%d" % a for a in range(k)], [2.5 * a for a in range(k)]])
    reg = [names[j // 2] if j < 2 * k else names[rng.randrange(k)] for j in range(n)]
    if rng.random() < 0.15:               # a regime of one unit: its own cell is not defined
        one = "lone" if isinstance(names[0], str) else 1
        reg[rng.randrange(2, n)] = one
    rng.shuffle(reg)
    return {"x": I.vals(rng, n), "y": I.vals(rng, n), "regime": reg,
            "P": I.perms(rng, n, [0, 1, 2, 3, 9, 19, 29], 0.008), "rng": R.gen(rng, n)}


def matrix(S, groups):
    k = len(groups)
    out = np.zeros((k, k))
    for a in range(k):
        for b in range(k):
            num = sum(S[i, j] for i in groups[a] for j in groups[b])
            den = len(groups[a]) * len(groups[b]) - (len(groups[a]) if a == b else 0)
            out[a, b] = num / float(den) if den else np.nan
    return out


def run(s, ctx):
    x, y = I.arr(s["x"]), I.arr(s["y"])
    P, n = s["P"], len(x)
    regime = np.array(s["regime"])
    names = sorted(set(s["regime"]))
    groups = [[i for i in range(n) if s["regime"][i] == r] for r in names]
    R.apply(s["rng"])
    r = sut("Tau_Regional", G["rank"].Tau_Regional, x, y, regime, P)
    same(r.tau_reg, matrix(M.concord(x, y), groups), "observed", "tau_reg")
    if P == 0:
        need(not hasattr(r, "tau_reg_sim") and not hasattr(r, "tau_reg_pvalues"), "inference-attributes",
             "permutations=0 but inference attributes are present")
        return
    k = len(names)
    rep = np.asarray(r.tau_reg_sim, dtype=float)
    need(rep.shape == (P, k, k), "sim-shape", "tau_reg_sim has shape %s" % (rep.shape,))

    def model(scheme):
        d = draws(R.twin(s["rng"]), scheme, n)
        same(rep, np.array([matrix(M.concord(x[q], y[q]), groups) for q, _ in zip(d, range(P))]), "sim", "tau_reg_sim")

    any_scheme(RUNNING, model)
    o = np.asarray(r.tau_reg)
    pv = (1 + np.minimum((rep >= o).sum(axis=0), (rep <= o).sum(axis=0))) / (1.0 + P)
    exact(np.asarray(r.tau_reg_pvalues, dtype=float), pv, "pvalue", "tau_reg_pvalues")
    ctx.hit("permutations", P)
    ctx.hit("regimes of one unit", sum(len(g) == 1 for g in groups))
    ctx.hit(R.label(s["rng"]))
    ctx.hit("cells tied with observed", int((rep == o).sum()))
    ctx.nontrivial = len(names) > 1 and bool((rep != o).any())
    ctx.sig = [rep.round(9).tolist()]
    ctx.state(ctx.sig)
    ctx.event(ctx.sig, pv.tolist())


def shrink(s):
    for c in Z.common(s, ["x", "y", "regime"], low=4):
        yield c
