import numpy as np

from .. import inputs as I, lisafig as L, rngseam as R, shrink as Z
from ..boot import G
from ..util import need, sut, drop_each

ID = "R10"
PLAN = {"quick": (1000, 60), "thorough": (9000, 800)}
RULE = ("a run = one Rose and a history of heatmaps, composites, permute calls and other plots, each from a scripted random state; every table is recounted from local Moran analyses of both "
        "periods started in the same random state. Non-trivial: some unit is significant in some table; distinct by tables")
STATES = "distinct transition tables"


def gen(rng, i, tier):
    big = i % 150 == 70                                      # more units than a byte can count
    n = rng.choice([270, 300]) if big else rng.randrange(5, 15)
    ops = []
    for _ in range(0 if big else rng.choice([1, 2, 3, 4])):
        r = rng.random()
        p = rng.choice([0.05, 0.05, 0.01, 0.1, 0.3, 0.5, 0.9, 1.0, 0.001, 0.0, {"pick": rng.random()}])
        if r < 0.45:
            ops.append({"op": "heatmap", "p": p, "unmask": rng.random() < 0.5, "ax": rng.random() < 0.3, "rng": R.gen(rng, n - 1)})
        elif r < 0.65:
            ops.append({"op": "composite", "p": p, "rng": R.gen(rng, n - 1)})
        elif r < 0.85:
            ops.append({"op": "permute", "P": rng.choice([1, 3, 9]), "alt": rng.choice(["two.sided", "two-sided"]),
                        "rng": R.gen(rng, n)})
        else:
            ops.append({"op": rng.choice(["rose", "vectors"])})
    if not any(o["op"] in ("heatmap", "composite") for o in ops):
        ops.append({"op": "heatmap", "p": rng.choice([0.0, 1.0]) if big else 0.3, "unmask": True, "ax": False, "rng": R.gen(rng, n - 1)})
    Y = I.panel(rng, n, 2)
    if rng.random() < 0.3:
        Y = I.vals(rng, n, 2, kind="f")
    for j in range(2):
        if len({r[j] for r in Y["a"]}) == 1:
            Y["a"][0][j] += 1
    return {"Y": Y, "w": I.gen_w(rng, n, ids=rng.choice(["int", "str", "intshift"]), sym=rng.random() < 0.8),
            "k": rng.choice([4, 5, 8]), "ops": ops}


def run(s, ctx):
    import matplotlib.pyplot as plt
    Y, w = I.arr(s["Y"]), I.w_of(s["w"])
    n = len(Y)
    gdf = I.frame(n)
    rose = sut("Rose", G["directional"].Rose, Y.copy(), w, s["k"])
    pl = G["plotting"]
    sigs = []
    for o in s["ops"]:
        if "rng" in o:
            R.apply(o["rng"])
        before = np.random.get_state()
        if o["op"] == "permute":
            sut("permute", rose.permute, o["P"], o["alt"])
            ctx.hit("permute between plots")
            continue
        if o["op"] == "rose":
            sut("dynamic_lisa_rose", pl.dynamic_lisa_rose, rose)
            ctx.hit("other plots between")
        elif o["op"] == "vectors":
            sut("dynamic_lisa_vectors", pl.dynamic_lisa_vectors, rose)
            ctx.hit("other plots between")
        else:
            p, ml, want = L.tables(Y, s["w"], o["p"], before)
            if o["op"] == "heatmap":
                kw = {"mask": np.zeros((5, 5), bool)} if o["unmask"] else {}
                if o["ax"]:
                    kw["ax"] = plt.subplots()[1]
                else:
                    plt.figure()
                fig, ax = sut("dynamic_lisa_heatmap", pl.dynamic_lisa_heatmap, rose, p=p, **kw)
            else:
                kw = {}
                fig, axs = sut("dynamic_lisa_composite", pl.dynamic_lisa_composite, rose, gdf, p=p)
                ax = axs[0]
            what = "%s(p=%s)" % (o["op"], p)
            L.check_table(ax, want, what, "mask" in kw)
            if o["op"] == "composite":
                L.check_composite(fig, Y, s["w"], gdf, p, ml, want, what)
            ctx.hit("tables:" + o["op"])
            ctx.hit(R.label(o["rng"]))
            ctx.nontrivial = ctx.nontrivial or bool(want[0, 0] != n)
            sigs.append(want.tolist())
            ctx.state(want.tolist())
        need(R.same(before, np.random.get_state()), "stream-moved", "%s left the random stream in another state" % o["op"])
        plt.close("all")
    ctx.sig = sigs
    ctx.event(sigs)


def shrink(s):
    for c in drop_each(s["ops"]):
        yield dict(s, ops=c)
    for j, o in enumerate(s["ops"]):
        put = lambda d: dict(s, ops=s["ops"][:j] + [d] + s["ops"][j + 1:])
        if "rng" in o:
            for r in R.shrink(o["rng"]):
                yield put(dict(o, rng=r))
        if o["op"] == "composite":
            yield put(dict(o, op="heatmap", unmask=True, ax=False))
    yield from Z.common(s, ["Y"], low=4)
