import numpy as np

from .. import inputs as I, models as M, rngseam as R, shrink as Z
from ..boot import G
from ..util import any_scheme, draws, FRESH, need, same, exact, sut

ID = "R02"
PLAN = {"quick": (6000, 60), "thorough": (60000, 800)}
RULE = ("a run = two variables, symmetric weights, P and scripted random stream; simulated taus recomputed by a reference "
        "model from the same stream. Non-trivial: P > 0 and the simulated values are not all equal to the observed one; "
        "distinct by simulated values")
STATES = "distinct simulated distributions"


def gen(rng, i, tier):
    n = I.size(rng, 4, 13, [140, 300])
    return {"x": I.vals(rng, n), "y": I.vals(rng, n), "w": I.gen_w(rng, n, islands=0.1),
            "P": I.perms(rng, n, [0, 1, 2, 3, 9, 19, 49]), "rng": R.gen(rng, n)}


def run(s, ctx):
    x, y, w = I.arr(s["x"]), I.arr(s["y"]), I.w_of(s["w"])
    P = s["P"]
    n = len(x)
    pairs = {(min(a, b), max(a, b)) for a, b, _ in s["w"]["edges"] if a != b}
    R.apply(s["rng"])
    r = sut("SpatialTau", G["rank"].SpatialTau, x, y, w, P)
    obs = M.spatial_tau(x, y, pairs)
    same(r.tau_spatial, obs, "observed", "tau_spatial")
    need(r.pairs_spatial == len(pairs), "pairs", "pairs_spatial %r != %d" % (r.pairs_spatial, len(pairs)))
    if P == 0:
        need(not hasattr(r, "taus") and not hasattr(r, "tau_spatial_psim"), "inference-attributes",
             "permutations=0 but inference attributes are present")
        return
    rep = np.asarray(r.taus, dtype=float)
    need(rep.shape == (P,), "sim-shape", "taus has shape %s" % (rep.shape,))

    def model(scheme):
        d = draws(R.twin(s["rng"]), scheme, n)
        same(rep, np.array([M.spatial_tau(x[p], y[p], pairs) for p, _ in zip(d, range(P))], dtype=float), "sim", "taus")

    any_scheme(FRESH, model)
    L = int((rep >= r.tau_spatial).sum())
    p = (L + 1.0) / (P + 1.0)
    if p > 0.5:
        p = (P - L + 1.0) / (P + 1.0)
    exact(float(r.tau_spatial_psim), p, "pvalue", "tau_spatial_psim")
    ctx.hit("permutations", P)
    ctx.hit(R.label(s["rng"]))
    ctx.hit("simulated values tied with observed", int((rep == r.tau_spatial).sum()))
    ctx.hit("p folded at one half", int((L + 1.0) / (P + 1.0) > 0.5))
    ctx.nontrivial = bool((rep != r.tau_spatial).any())
    ctx.sig = [rep.round(9).tolist(), round(float(r.tau_spatial), 9)]
    ctx.state(ctx.sig)
    ctx.event(ctx.sig, float(r.tau_spatial_psim))


def shrink(s):
    yield from Z.common(s, ["x", "y"])
