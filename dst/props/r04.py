import numpy as np

from .. import inputs as I, models as M, rngseam as R, shrink as Z
from ..boot import G
from ..util import any_scheme, draws, RUNNING, need, same, exact, sut

ID = "R04"
PLAN = {"quick": (6000, 60), "thorough": (40000, 800)}
RULE = ("a run = two variables, weights without islands, P and scripted random stream; every unit's random neighborhoods and "
        "statistics recomputed by a reference model from the same stream. Non-trivial: P > 0 and some simulated value differs from the observed one; "
        "distinct by simulated values")
STATES = "distinct simulated distributions"


def gen(rng, i, tier):
    n = I.size(rng, 4, 11, [60, 140], 0.02)
    return {"x": I.vals(rng, n), "y": I.vals(rng, n), "w": I.gen_w(rng, n, sym=rng.random() < 0.8),
            "P": I.perms(rng, n, [0, 1, 2, 3, 9, 19, 29], 0.008), "rng": R.gen(rng, n - 1)}


def hood(S, members):
    m = len(members)
    return sum(S[a, b] for a in members for b in members) / float(m * (m - 1))


def run(s, ctx):
    x, y, w = I.arr(s["x"]), I.arr(s["y"]), I.w_of(s["w"])
    P, n = s["P"], len(x)
    nb = [[] for _ in range(n)]
    for a, b, _ in s["w"]["edges"]:
        nb[a].append(b)
    R.apply(s["rng"])
    r = sut("Tau_Local_Neighborhood", G["rank"].Tau_Local_Neighborhood, x, y, w, P)
    S = M.concord(x, y)
    same(r.tau_lnhood, np.array([hood(S, [i] + nb[i]) for i in range(n)]), "observed", "tau_lnhood")
    if P == 0:
        need(not hasattr(r, "tau_lnhood_sim") and not hasattr(r, "tau_lnhood_pvalues"), "inference-attributes",
             "permutations=0 but inference attributes are present")
        return
    rep = np.asarray(r.tau_lnhood_sim, dtype=float)
    need(rep.shape == (n, P), "sim-shape", "tau_lnhood_sim has shape %s" % (rep.shape,))

    def model(scheme):
        rs = R.twin(s["rng"])
        sim = np.zeros((n, P))
        for i in range(n):
            others = [j for j in range(n) if j != i]
            d = draws(rs, scheme, n - 1)
            for p in range(P):
                q = next(d)
                sim[i, p] = hood(S, [i] + [others[a] for a in q[:len(nb[i])]])
        same(rep, sim, "sim", "tau_lnhood_sim")

    any_scheme(RUNNING, model)
    o = np.asarray(r.tau_lnhood)
    pv = (np.minimum((rep >= o[:, None]).sum(axis=1), (rep <= o[:, None]).sum(axis=1)) + 1.0) / (P + 1)
    exact(np.asarray(r.tau_lnhood_pvalues, dtype=float), pv, "pvalue", "tau_lnhood_pvalues")
    ctx.hit("neighborhoods drawn", n * P)
    ctx.hit(R.label(s["rng"]))
    ctx.nontrivial = bool((rep != o[:, None]).any())
    ctx.sig = [rep.round(9).tolist()]
    ctx.state(ctx.sig)
    ctx.event(ctx.sig, pv.tolist())


def shrink(s):
    yield from Z.common(s, ["x", "y"])
