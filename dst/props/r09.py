import numpy as np

from .. import inputs as I, models as M, rngseam as R, shrink as Z
from ..boot import G
from ..util import need, same, exact, sut, drop_each

ID = "R09"
PLAN = {"quick": (3800, 60), "thorough": (40000, 800)}
RULE = ("a run = one panel of categories and weights analysed under several random streams (scripted and seeded); every lag class is checked against the set the voting rule allows, "
        "sets of one must never depend on the stream, remaining ties must go both ways over 40 seeded streams. Non-trivial: some tie is left to chance; distinct by allowed sets")
STATES = "distinct lag class panels"


def gen(rng, i, tier):
    n, t = I.size(rng, 4, 12, [140, 300]), rng.randrange(2, 5)
    k = rng.randrange(2, 6)
    if i % 500 == 133:                                       # about as many classes as units
        k = rng.choice([130, 130, 260])
        n, t = k + rng.randrange(0, 12), 2
        return {"y": {"a": I.classes(rng, n, t, k), "dt": "i8"},
                "w": I.gen_w(rng, n, ids="int", binary=True, shape="ring"), "rngs": [R.gen(rng, n)], "many": None, "P": 0}
    kind = rng.choice(["int", "gap", "str", "float", "neg"])
    names = {"int": list(range(k)), "gap": [4, 7, 9, 30, 31][:k], "str": ["b", "a", "Z", "cc", "k9"][:k],
             "float": [0.5, 1.5, 2.25, 7.0, 9.75][:k], "neg": [-5, -1, 0, 3, 8][:k]}[kind]
    w = I.gen_w(rng, n, ids=rng.choice(["int", "str", "intshift"]), sym=rng.random() < 0.7, self_w=0.1,
                binary=rng.random() < 0.75)
    if w["tr"] in "DV":
        w["tr"] = "O"
    c = I.classes(rng, n, t, k, names) if rng.random() < 0.7 else [[rng.choice(names) for _ in range(t)] for _ in range(n)]
    return {"y": {"a": c, "dt": {"str": "U", "float": "f8"}.get(kind, "i8")}, "w": w,
            "rngs": [R.gen(rng, n) for _ in range(3)], "many": rng.randrange(1 << 20) if rng.random() < 0.3 else None,
            "P": rng.choice([0, 0, 0, 2])}


def allowed(ids, w, k):
    """Sets of lag classes the voting rule allows; votes within rounding of the best count as tied and as not tied."""
    pos = {u: a for a, u in enumerate(w.id_order)}
    n, t = ids.shape
    out = [[None] * t for _ in range(n)]
    sure = [[True] * t for _ in range(n)]
    for u in w.id_order:
        for j in range(t):
            v = np.zeros(k)
            for x, wt in zip(w.neighbors[u], w.weights[u]):
                v[ids[pos[x], j]] += wt
            exactly = np.flatnonzero(v == v.max())
            near = np.flatnonzero(np.abs(v - v.max()) < 1e-9)
            if len(near) == 1:
                a = set(near.tolist())
            else:
                v2 = v.copy()
                v2[ids[pos[u], j]] += np.mean(w.weights[u])
                a = set(np.flatnonzero(np.abs(v2 - v2.max()) < 1e-9).tolist())
                if set(exactly.tolist()) != set(near.tolist()):    # rounding decides
                    a |= set(near.tolist())
                    sure[pos[u]][j] = False
            if any(x != 1.0 for x in w.weights[u]):
                sure[pos[u]][j] = False
            out[pos[u]][j] = a
    return out, sure


def run(s, ctx):
    y = I.arr(s["y"])
    classes = np.unique(y)
    ids = np.searchsorted(classes, y)
    k = len(classes)
    w = I.w_of(s["w"])
    sets, sure = allowed(ids, w, k)
    C = M.markov_counts(ids, k)
    n, t = y.shape
    ties = sum(len(a) > 1 for r in sets for a in r)
    rngs = list(s["rngs"])
    if s["many"] is not None and ties:
        rngs += [{"kind": "seed", "seed": s["many"] + 7919 * j} for j in range(40)]
    seen = [[set() for _ in range(t)] for _ in range(n)]
    out = []
    for c, spec in enumerate(rngs):
        R.apply(spec)
        before = np.random.get_state()
        r = sut("Spatial_Markov(discrete=True)", G["markov"].Spatial_Markov, y, I.w_of(s["w"]), discrete=True,
                permutations=s["P"] if c < 3 else 0)
        L = np.asarray(r.lclass_ids)
        need(L.shape == y.shape, "shape", "lclass_ids has shape %s for a panel of shape %s" % (L.shape, y.shape))
        exact(np.asarray(r.classes), classes, "classes", "classes")
        exact(np.asarray(r.class_ids), ids, "class_ids", "class_ids")
        for a in range(n):
            for j in range(t):
                x = int(L[a, j])
                need(x in sets[a][j], "lag-class",
                     "unit %d in period %d has lag class %d, the vote of its neighbors allows %s" % (a, j, x, sorted(sets[a][j])))
                seen[a][j].add(x)
        T = np.asarray(r.T, dtype=float)
        need(T.shape == (k, k, k), "shape", "T has shape %s for %d classes" % (T.shape, k))
        exact(T.sum(axis=0), C, "counts", "sum of T over lag classes")
        exact(T, M.lag_counts(ids, L.astype(int), k, k), "counts", "T")
        exact(np.asarray(r.transitions, dtype=float), C, "counts", "transitions")
        if not ties and not s["P"]:
            need(R.same(before, np.random.get_state()), "stream", "random numbers were used although no tie remains")
        out.append(L.astype(int).tolist() if c < 3 else 0)
        ctx.state(L.tolist())
        ctx.hit(R.label(spec))
    if len(rngs) > 40:
        for a in range(n):
            for j in range(t):
                if len(sets[a][j]) > 1 and sure[a][j]:
                    need(len(seen[a][j] & sets[a][j]) > 1, "not-random",
                         "unit %d in period %d always gets lag class %s although %s tie" % (a, j, seen[a][j], sorted(sets[a][j])))
        ctx.hit("cells with ties tried under 40 streams", ties)
    ctx.hit("ties left to chance", ties)
    ctx.nontrivial = ties > 0
    ctx.sig = [[sorted(a) for r in sets for a in r]]
    ctx.event(out)


def shrink(s):
    for c in drop_each(s["rngs"]):
        yield dict(s, rngs=c)
    if s["P"]:
        yield dict(s, P=0)
    yield from Z.common(s, ["y"])
    yield from Z.cols(s, "y")
