import numpy as np

from .. import inputs as I, models as M, rngseam as R, shrink as Z
from ..boot import G
from ..util import need, same, exact, sut, smaller_ints, drop_each

ID = "R08"
PLAN = {"quick": (3000, 60), "thorough": (30000, 800)}
RULE = ("a run = one panel, weights, significance level, P, random stream and a history of spillover calls; LISAs recomputed period by period on the same stream, "
        "move types from their definition, clusters with union-find. Non-trivial: permutations were run and some cluster exists; distinct by LISA classes, significance and clusters")
STATES = "distinct (classes, significance pattern, clusters)"


def gen(rng, i, tier):
    big = i % 90 == 17 or (tier == "thorough" and rng.random() < 0.01)
    if big:
        n = rng.randrange(1100, 1800)
        return {"big": n, "w": None, "y": None, "P": 2, "rng": {"kind": "seed", "seed": rng.randrange(1 << 30)}, "lev": 1.0,
                "geoda": False, "calls": [[rng.choice([1, 3]), rng.random() < 0.5]], "str": rng.random() < 0.3}
    n, t = rng.randrange(5, 15), rng.randrange(2, 6)
    s = {"w": I.gen_w(rng, n, ids=rng.choice(["int", "str", "str", "intshift"]), sym=rng.random() < 0.8),
         "y": I.panel(rng, n, t) if rng.random() < 0.6 else I.vals(rng, n, t, kind=rng.choice("fi")),
         "P": rng.choice([0, 5, 9, 19, 49, 99]), "rng": R.gen(rng, n - 1),
         "lev": rng.choice([0.05, 0.1, 0.3, 0.5, 1.0, {"pick": rng.random()}, {"pick": rng.random()}]),
         "geoda": rng.random() < 0.3,
         "calls": [[rng.choice([1, 1, 2, 3, 4]), rng.random() < 0.4] for _ in range(rng.choice([1, 2, 3]))]}
    for j in range(t):       # no period without variation
        col = [r[j] for r in s["y"]["a"]]
        if max(col) == min(col):
            s["y"]["a"][0][j] += 1
    return s


def big_inputs(s):
    from libpysal.weights import W
    n = s["big"]
    name = (lambda a: "u%d" % a) if s.get("str") else (lambda a: a)
    w = W({name(a): [name((a - 1) % n), name((a + 1) % n)] for a in range(n)}, silence_warnings=True,
          id_order=[name(a) for a in range(n)])
    half = n - 20 if s["calls"][0][0] == 1 else 20
    y = np.array([[10.0 + (a % 3) if a < half else 1.0 + (a % 2)] * 2 for a in range(n)])
    return y, w


def run(s, ctx):
    from esda.moran import Moran_Local
    if s.get("big"):
        y, w = big_inputs(s)
        _, w2 = big_inputs(s)
    else:
        y, w, w2 = I.arr(s["y"]), I.w_of(s["w"]), I.w_of(s["w"])
    P, lev = s["P"], s["lev"]
    n, t = y.shape
    w2.transform = "r"
    R.apply(s["rng"])
    with np.errstate(all="ignore"):
        ml = [Moran_Local(y[:, j], w2, permutations=P, geoda_quads=s["geoda"]) for j in range(t)]
    q = np.array([m.q for m in ml]).T
    end = np.random.get_state()
    if P:
        pv = np.array([m.p_z_sim for m in ml]).T
        if isinstance(lev, dict):
            flat = np.sort(pv[np.isfinite(pv)])
            lev = float(flat[int(lev["pick"] * len(flat))]) if len(flat) else 0.05
            ctx.hit("level equal to a p-value")
    elif isinstance(lev, dict):
        lev = 0.05
    R.apply(s["rng"])
    r = sut("LISA_Markov", G["markov"].LISA_Markov, y, w, permutations=P, significance_level=lev,
            geoda_quads=s["geoda"])
    exact(np.asarray(r.q, dtype=int), q.astype(int), "q", "q")
    T = M.markov_counts(q - 1, 4)
    exact(np.asarray(r.transitions, dtype=float), T, "transitions", "transitions")
    mt = (q[:, :-1] - 1) * 4 + q[:, 1:]
    exact(np.asarray(r.move_types, dtype=int), mt.astype(int), "move_types", "move_types")
    need(R.same(end, np.random.get_state()), "stream", "random stream is not where %d period analyses leave it" % t)
    if not P:
        need(not hasattr(r, "significant_moves") and not hasattr(r, "p_values"), "inference-attributes",
             "permutations=0 but inference attributes are present")
    else:
        same(np.asarray(r.p_values, dtype=float), pv, "p_values", "p_values")
        sig = pv <= lev
        add = np.where(sig[:, :-1], np.where(sig[:, 1:], 0, 16), np.where(sig[:, 1:], 32, 48))
        exact(np.asarray(r.significant_moves, dtype=int), (mt + add).astype(int), "significant_moves", "significant_moves")
    pos = {u: a for a, u in enumerate(w2.id_order)}
    nb = {pos[u]: [pos[v] for v in w2.neighbors[u]] for u in w2.id_order}
    found = 0
    table = []
    for quad, on in s["calls"]:
        got = sut("spillover(%s, %s)" % (quad, on), r.spillover, quad, on)
        if not P:
            need(got is None, "spillover-none", "spillover() without permutations returned %s" % type(got))
            continue
        comp = np.zeros((n, t))
        for j in range(t):
            E = []
            for a in range(n):
                if q[a, j] == quad and sig[a, j]:
                    for b in nb[a]:
                        E.append((a, b))
                        if on:
                            E.extend((b, c) for c in nb[b])
            cl = M.clusters({a for e in E for a in e}, E)
            for c, members in enumerate(sorted(cl, key=min)):
                comp[list(members), j] = c + 1
            found += len(cl)
        spill = np.zeros((n, t - 1))
        for j in range(t - 1):
            old = {c for c in set(comp[:, j + 1]) - {0.0} if (comp[comp[:, j + 1] == c, j] > 0).any()}
            for a in range(n):
                spill[a, j] = comp[a, j + 1] in old and comp[a, j] == 0
        exact(np.asarray(got["components"], dtype=float), comp, "components", "components(quadrant=%s, neighbors_on=%s)" % (quad, on))
        exact(np.asarray(got["spill_over"], dtype=float), spill, "spill_over", "spill_over(quadrant=%s, neighbors_on=%s)" % (quad, on))
        table.append([comp.tolist(), spill.tolist()] if n < 50 else found)
        ctx.hit("spillover calls")
        ctx.hit("spill-over locations", int(spill.sum()))
    ctx.hit("permutations", P)
    ctx.hit("clusters", found)
    ctx.hit("large maps", int(bool(s.get("big"))))
    ctx.hit(R.label(s["rng"]))
    ctx.nontrivial = bool(P and found)
    ctx.sig = [q.tolist() if n < 50 else n, sig.tolist() if P and n < 50 else 0, table]
    ctx.state(ctx.sig)
    ctx.event(ctx.sig)


def shrink(s):
    if s.get("big"):
        for v in (1000, 1100, 1300):
            if v < s["big"]:
                yield dict(s, big=v)
        return
    for c in drop_each(s["calls"]):
        yield dict(s, calls=c)
    yield from Z.common(s, ["y"], low=4)
    yield from Z.cols(s, "y")
    if s["geoda"]:
        yield dict(s, geoda=False)
