"""Reading LISA figures and recounting what they should show."""
import numpy as np

from . import inputs as I, observe as O
from .util import need, same, quiet

LAB = ["ns", "HH", "LH", "LL", "HL"]


def table_of(ax, what):
    mesh = [c for c in ax.collections if type(c).__name__ == "QuadMesh"]
    need(len(mesh) == 1, "no-heatmap", "%s: %d heatmaps in the axes" % (what, len(mesh)))
    need([t.get_text() for t in ax.get_xticklabels()] == LAB and [t.get_text() for t in ax.get_yticklabels()] == LAB,
         "labels", "%s: tick labels %s / %s" % (what, [t.get_text() for t in ax.get_xticklabels()],
                                                [t.get_text() for t in ax.get_yticklabels()]))
    need(ax.get_xlabel() == "End time" and ax.get_ylabel() == "Start time", "labels", "%s: axis labels" % what)
    arr = np.ma.asarray(mesh[0].get_array()).reshape(5, 5)
    out = {}
    for t in ax.texts:
        x, y = t.get_position()
        out[(int(y), int(x))] = int(float(t.get_text()))
    return arr, out



def tables(Y, wspec, p, state):
    """The 5 x 5 counts of both periods' local Moran analyses started in the given random state."""
    from esda.moran import Moran_Local
    n = len(Y)
    w2 = I.w_of(wspec)
    w2.transform = "r"
    ml = []
    with quiet():
        for j in (0, 1):
            np.random.set_state(state)
            ml.append(Moran_Local(Y[:, j], w2))
    np.random.set_state(state)
    if isinstance(p, dict):
        p = float(np.sort(np.concatenate([m.p_sim for m in ml]))[int(p["pick"] * 2 * n)])
    st = [np.where(m.p_sim < p, m.q, 0) for m in ml]
    want = np.zeros((5, 5), int)
    for a, b in zip(*st):
        want[a, b] += 1
    return p, ml, want


def check_table(ax, want, what, unmasked=False):
    arr, texts = table_of(ax, what)
    data = np.ma.getdata(arr)
    masked = np.ma.getmaskarray(arr)
    for a in range(5):
        for b in range(5):
            if masked[a, b]:
                need(a == b and not unmasked, "masked", "%s: cell (%d, %d) is hidden" % (what, a, b))
                continue
            need(int(data[a, b]) == want[a, b] and texts.get((a, b)) == want[a, b], "table",
                 "%s: %s -> %s shows %s (colour for %s), %d units moved so" % (
                     what, LAB[a], LAB[b], texts.get((a, b)), data[a, b], want[a, b]))


def check_composite(fig, Y, wspec, gdf, p, ml, want, what):
    import matplotlib.pyplot as plt
    from libpysal.weights import lag_spatial
    n = len(Y)
    obs = O.figure(fig)[1]
    need(len(obs) == 4, "figure", "%s has %d axes" % (what, len(obs)))
    check_table(fig.axes[0], want, what)
    with quiet():
        f2, a2 = plt.subplots(1, 2)
        kwl = dict(legend=True, legend_kwds={"loc": "upper left", "bbox_to_anchor": (0.92, 1.05)})
        ml[0].plot(gdf, crit_value=p, ax=a2[0], **kwl)
        ml[1].plot(gdf, crit_value=p, ax=a2[1], **kwl)
    ref = O.figure(f2)[1]
    plt.close(f2)
    for c, (x, y) in enumerate(((1, 0), (3, 1))):
        pick = lambda d: [e for e in d[1] if e[0] in ("col", "legend", "line")]
        same(pick(obs[x]), pick(ref[y]), "map", "%s map of the %s" % (what, ("start", "end")[c]))
    need((fig.axes[1].get_title(), fig.axes[3].get_title()) == ("Start time", "End time"), "labels", "%s: titles %r" % (
        what, [a.get_title() for a in fig.axes]))
    dx = Y[:, 1] - Y[:, 0]
    wY = lag_spatial(I.w_of(wspec), Y)
    dy = wY[:, 1] - wY[:, 0]
    pts = [c for c in fig.axes[2].collections if len(c.get_offsets()) == n]
    need(len(pts) == 1, "rose", "%s: no scatter of n points in the rose diagram" % what)
    same(np.asarray(pts[0].get_offsets(), dtype=float), np.column_stack([np.arctan2(dy, dx), np.hypot(dx, dy)]),
         "rose", "%s rose diagram" % what, rtol=1e-7)
