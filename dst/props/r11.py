import numpy as np

from .. import inputs as I, rngseam as R
from ..boot import G
from ..util import any_scheme, draws, FRESH, need, sut, drop_each

ID = "R11"
PLAN = {"quick": (9000, 30), "thorough": (80000, 500)}
RULE = ("a run = one to five calls of shuffle_matrix on matrices of several kinds, each from a scripted random state, with changes of the matrix by the caller in between; every result is compared with the "
        "permutation the stream yields, applied by loops to rows and columns. Non-trivial: some permutation moves something; distinct by permutations")
STATES = "distinct permutations"


def gen(rng, i, tier):
    n = I.size(rng, 1, 12, [20, 40, 150, 300], 0.04)
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        calls.append({"rng": R.gen(rng, n), "ids": rng.choice(["list", "range", "array", "narrow", "permuted"]),
                      "mut": rng.choice(["no", "no", "in place", "new"]), "again": rng.random() < 0.2})
    return {"n": n, "kind": rng.choice(["i", "f", "b", "s", "sym", "ones", "F", "view", "matrix"]), "seed": rng.randrange(1 << 30), "calls": calls}


def matrix(n, kind, seed):
    r = np.random.RandomState(seed)
    a = r.permutation(n * n).reshape(n, n)
    if kind == "f":
        return a * 0.5 - 3
    if kind == "b":
        return a % 2 == 0
    if kind == "s":
        return a.astype(str)
    if kind == "sym":
        return a + a.T
    if kind == "matrix":
        return np.asmatrix(a)
    if kind == "ones":
        return np.eye(n)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "view":
        b = np.zeros((2 * n, 2 * n))
        b[::2, ::2] = a
        return b[::2, ::2]
    return a


def run(s, ctx):
    n = s["n"]
    X = matrix(n, s["kind"], s["seed"])
    perms = []
    keep = []
    shared = None
    for j, c in enumerate(s["calls"]):
        if c["mut"] == "new":
            X = matrix(n, s["kind"], s["seed"] + j)
        elif c["mut"] == "in place" and j:
            X[:] = X[::-1].copy()
        base = list(range(n))
        if c["ids"] == "permuted":
            base = [int(v) for v in np.random.RandomState(s["seed"] + 5).permutation(n)]
        ids = {"range": lambda: range(n), "array": lambda: np.arange(n), "narrow": lambda: np.arange(n, dtype=np.int16)}.get(
            c["ids"], lambda: list(base))()
        if c["again"] and shared is not None:
            ids, base = shared
        shared = ids, base
        was = X.copy()
        R.apply(c["rng"])
        got = sut("shuffle_matrix", G["util"].shuffle_matrix, X, ids)
        need(got.shape == (n, n), "shuffle", "shape %s for an order of %d" % (got.shape, n))
        need(type(got) is type(was), "shuffle", "a %s became a %s" % (type(was).__name__, type(got).__name__))
        need(got.dtype == was.dtype, "shuffle", "values of type %s became %s" % (was.dtype, got.dtype))

        def model(scheme):
            p = np.array(base)[next(draws(R.twin(c["rng"]), scheme, n))]
            need(got.tolist() == [[was[p[a], p[b]].item() for b in range(n)] for a in range(n)], "shuffle",
                 "call %d: rows and columns are not those of the drawn permutation %s: %s" % (j + 1, p.tolist()[:12], str(got.tolist())[:200]))
            return p

        p = any_scheme(FRESH, model)
        need(list(ids) == base, "ids-changed", "the caller's ids became %s" % list(ids)[:12])
        need((X == was).all(), "matrix-changed", "the caller's matrix changed")
        need(not np.shares_memory(got, X), "shared", "the result shares memory with the caller's matrix")
        for g, v in keep:
            need((g == v).all(), "earlier-changed", "an earlier result changed")
        keep.append((got, got.copy()))
        perms.append(p.tolist())
        ctx.hit(R.label(c["rng"]))
        ctx.state(p.tolist())
        ctx.nontrivial = ctx.nontrivial or p.tolist() != base
    ctx.sig = [s["kind"], perms]
    ctx.event(perms)


def shrink(s):
    for c in drop_each(s["calls"]):
        yield dict(s, calls=c)
    for v in (1, 2, 3, 4, s["n"] // 2, s["n"] - 1):
        if 0 < v < s["n"]:
            yield dict(s, n=v)
    for j, c in enumerate(s["calls"]):
        put = lambda d: dict(s, calls=s["calls"][:j] + [d] + s["calls"][j + 1:])
        for r in R.shrink(c["rng"]):
            yield put(dict(c, rng=r))
        if c["ids"] != "list":
            yield put(dict(c, ids="list"))
        if c["mut"] != "no":
            yield put(dict(c, mut="no"))
