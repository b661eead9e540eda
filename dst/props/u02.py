import logging

import numpy as np

from .. import faults as F, inputs as I, observe as O, ops, rngseam as R
from ..boot import G
from ..util import need, quiet, same, drop_each

ID = "U02"
PLAN = {"quick": (1400, 55), "thorough": (20000, 850)}
RULE = ("a run = a history of drawing steps with figures left open: the caller opens figures, makes other axes current, writes into figures, closes some, and asks Roses for plots with and without axes of its own, some of them failing inside "
        "and drawn again; after each step every other figure and axes shows what it showed, new figures are counted, and what was added is recounted from the data. "
        "Non-trivial: a plot was drawn while another figure was open; distinct by the history")
STATES = "distinct (plot, where it was drawn, number of open figures, fault)"
REAL = ["giddy.plotting, giddy.directional", "matplotlib (Agg)", "seaborn", "geopandas", "esda local Moran"]
STUB = ["numba (esda's kernels run interpreted; the private generator of its conditional randomisation is seeded from the simulated global stream)",
        "redrawing when idle (figures are drawn by the check)"]
DRAW = ["rose", "rose", "rose", "vectors", "vectors", "heatmap", "heatmap", "plot", "plot", "plot_vectors", "plot_origin", "plot_origin", "composite"]
NEW = ("rose", "vectors", "plot", "plot_vectors", "composite")     # make a figure of their own unless told where to draw


def gen(rng, i, tier):
    n = rng.randrange(4, 10)
    roses = [{"Y": I.vals(rng, n, 2, kind="f"), "k": rng.choice([4, 5, 8]), "w": I.gen_w(rng, n)} for _ in range(rng.choice([1, 1, 2]))]
    for r in roses:
        if rng.random() < 0.15:           # most units stay where they are
            move = rng.randrange(n)
            for j, v in enumerate(r["Y"]["a"]):
                v[1] = v[0] + (1.5 if j == move else 0)
    ev = []
    for _ in range(rng.choice([2, 3, 4, 6, 8])):
        r = rng.random()
        if r < 0.2:
            ev.append({"op": "open", "kind": rng.choice(["plain", "pair", "polar", "polars", "empty"])})
        elif r < 0.27:
            ev.append({"op": "current", "u": round(rng.random(), 4)})
        elif r < 0.34:
            ev.append({"op": "write", "u": round(rng.random(), 4)})
        elif r < 0.38:
            ev.append({"op": "close", "u": round(rng.random(), 4)})
        elif r < 0.42:
            ev.append({"op": "permute", "rose": rng.randrange(len(roses)), "rng": R.gen(rng, n)})
        else:
            d = {"op": rng.choice(DRAW), "rose": rng.randrange(len(roses)), "rng": R.gen(rng, n - 1), "ax": rng.choice([None, None, "new", "old"]),
                 "u": round(rng.random(), 4), "attr": rng.random() < 0.4, "arrows": rng.random() < 0.5,
                 "kw": rng.choice([{}, {}, {"alpha": 0.25}, {"color": "r"}])}
            if d["op"] in ("plot_origin", "plot_vectors", "composite"):
                d["ax"] = None
            if rng.random() < 0.2:
                d["fault"] = F.gen_fault(rng, "call")
            ev.append(d)
    return {"n": n, "roses": roses, "attr": I.vals(rng, n, kind="f"), "ev": ev}


def axes_print(ax):
    name, d = O.figure(type("F", (), {"axes": [ax]})())[1][0]
    # (matplotlib fits the limits of axes with equal aspect whenever it draws them)
    at = tuple(float(v) for v in ax.get_position(original=True).bounds)
    return name, tuple(x for x in d if x[0] != "lim" or ax.get_aspect() == "auto") + (("at", at),)


def shot():
    """What every open figure shows, axes by axes."""
    import matplotlib.pyplot as plt
    out = {}
    for f in plt.get_fignums():
        fig = plt._pylab_helpers.Gcf.figs[f].canvas.figure
        out[f] = (fig, [(ax, axes_print(ax)) for ax in fig.axes], tuple(fig.get_size_inches()), getattr(fig._suptitle, "get_text", lambda: None)())
    return out


def others_same(before, target_fig, target_ax, what):
    """Figures (and axes beside the target) that the step had nothing to do with."""
    now = shot()
    for f, (fig, axs, size, title) in before.items():
        need(f in now and now[f][0] is fig, "figure-lost", "%s: figure %d is gone" % (what, f))
        if fig is target_fig and target_ax is None:
            continue
        a2 = now[f][1]
        if True:
            need(len(a2) == len(axs), "other-figure", "%s: figure %d now has %d axes, had %d" % (what, f, len(a2), len(axs)))
        for (ax, p), (bx, q) in zip(axs, a2):
            need(ax is bx, "other-figure", "%s: the axes of figure %d changed" % (what, f))
            if ax is target_ax:
                continue
            d = O.diff(O.canon(q), O.canon(p), "figure %d" % f, rtol=1e-12, atol=0.0)
            need(d is None, "other-figure", "%s, drawn elsewhere: %s" % (what, d))
        if fig is not target_fig:
            need((size, title) == now[f][2:], "other-figure", "%s: size or title of figure %d is now %s" % (what, f, now[f][2:]))


def pick(u, seq):
    return seq[int(u * len(seq))] if seq else None


def run(s, ctx):
    import matplotlib.pyplot as plt
    from libpysal.weights import lag_spatial
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    n = s["n"]
    attr = I.arr(s["attr"])
    roses = []
    with quiet():
        for d in s["roses"]:
            Y = I.arr(d["Y"])
            wY = lag_spatial(I.w_of(d["w"]), Y)
            roses.append((G["directional"].Rose(Y.copy(), I.w_of(d["w"]), d["k"]), Y, wY))
    gdf = I.frame(n)
    pl = G["plotting"]
    hist = []

    def call(e, rose, ax):
        kw = {} if ax is None else {"ax": ax}
        op = e["op"]
        if op in ("rose", "plot"):
            kw.update({k: v for k, v in e["kw"].items() if not (e["attr"] and k == "color")})
            if e["attr"]:
                kw["attribute"] = attr
            return pl.dynamic_lisa_rose(rose, **kw) if op == "rose" else rose.plot(**kw)
        if op == "vectors":
            return pl.dynamic_lisa_vectors(rose, arrows=e["arrows"], **dict(e["kw"], **kw))
        if op == "plot_vectors":
            return rose.plot_vectors(arrows=e["arrows"])
        if op == "heatmap":
            return pl.dynamic_lisa_heatmap(rose, p=0.5, **kw)
        if op == "plot_origin":
            return rose.plot_origin()
        return pl.dynamic_lisa_composite(rose, gdf, p=0.5)

    def points(ax):
        return [np.asarray(c.get_offsets(), float) for c in ax.collections if type(c).__name__ == "PathCollection"]

    for j, e in enumerate(s["ev"]):
        figs = plt.get_fignums()
        if e["op"] == "open":
            if len(figs) < 8:
                fig = plt.figure()
                if e["kind"] == "plain":
                    fig.add_subplot(111).plot([0, 1, 2], [2, 0, j])
                elif e["kind"] == "pair":
                    a, b = fig.subplots(1, 2)
                    a.set_title("mine %d" % j)
                    b.scatter([1, 2], [2, j])
                elif e["kind"] == "polars":
                    a = fig.add_subplot(131, projection="polar")
                    fig.add_subplot(132, projection="polar").scatter([1, 2], [1, j])
                    fig.add_subplot(133).set_xlabel("x%d" % j)
                    if j % 2:
                        plt.sca(a)
                elif e["kind"] == "polar":
                    fig.add_subplot(111, projection="polar").plot([0, 1], [1, 2])
            continue
        if e["op"] in ("current", "write", "close"):
            f = pick(e["u"], figs)
            if f is None:
                continue
            if e["op"] == "close":
                plt.close(f)
                continue
            fig = plt.figure(f)
            ax = pick((e["u"] * 7) % 1, fig.axes)
            if ax is not None:
                plt.sca(ax)
                if e["op"] == "write":
                    ax.set_title("w%d" % j)
                    ax.plot([0, 1], [j, 1])
            continue
        rose, Y, wY = roses[e["rose"]]
        R.apply(e["rng"])
        if e["op"] == "permute":
            with quiet():
                rose.permute(3)
            continue
        ax = None
        if e["ax"] == "new":
            keep = plt.gca() if figs and plt.gcf().axes else None
            ax = plt.figure().add_subplot(111, projection="polar" if e["op"] in ("rose", "plot") else None)
            if keep is not None:
                plt.sca(keep)
        elif e["ax"] == "old":
            kind = "polar" if e["op"] in ("rose", "plot") else "rectilinear"
            ok = [a for f in figs for a in plt._pylab_helpers.Gcf.figs[f].canvas.figure.axes if a.name == kind]
            if e["op"] == "heatmap":
                ok = [a for a in ok if not [c for c in a.collections if type(c).__name__ == "QuadMesh"]]
            ax = pick(e["u"], ok)
        where = "given axes" if ax is not None else "current axes" if e["op"] in ("heatmap", "plot_origin") else "own figure"
        what = "%s (%s, step %d)" % (e["op"], where, j)

        def current():
            if not plt.get_fignums():
                return None, None
            fig = plt.gcf()
            return fig, (fig.gca() if fig.axes else None)
        cur = current()
        figs = plt.get_fignums()
        if where == "current axes" and e["op"] == "heatmap" and cur[1] is not None and \
                [c for c in cur[1].collections if type(c).__name__ == "QuadMesh"]:
            continue        # a heatmap over a heatmap cannot be told apart
        if where == "current axes" and cur[1] is not None and cur[1].name == "polar":
            continue        # neither can be drawn in polar axes
        target_fig = ax.get_figure() if ax is not None else cur[0] if where == "current axes" else None
        target_ax = ax if ax is not None else cur[1] if where == "current axes" else None
        before = shot()
        st = np.random.get_state()
        if e.get("fault"):
            def dry():
                rec = F.recorder("call")
                with quiet(), rec:
                    try:
                        call(e, rose, ax)
                    except Exception:
                        pass
                return rec.count
            inj = F.injector("call", F.forked(dry), e["fault"])
            exc = None
            with quiet():
                try:
                    with inj:
                        call(e, rose, ax)
                except BaseException as x:
                    exc = x
            if inj.fired:
                need(exc is not None, "swallowed", "%s: the injected %s did not reach the caller" % (what, e["fault"]["kind"]))
                others_same(before, target_fig, target_ax, what + " stopped (%s)" % exc)
                ctx.hit("fault:%s while drawing" % e["fault"]["kind"])
            for f in plt.get_fignums():
                if f not in figs:
                    plt.close(f)
            if where != "own figure":
                hist.append([e["op"], where, "stopped"])
                continue        # what is left half drawn in the caller's axes is not claimed
            if cur[1] is not None:
                plt.sca(cur[1])
            elif cur[0] is not None:
                plt.figure(cur[0].number)
            np.random.set_state(st)
        had = (len(points(target_ax)), len(target_ax.lines), len(target_ax.texts)) if target_ax is not None else (0, 0, 0)
        with quiet():
            out = call(e, rose, ax)
        new = [f for f in plt.get_fignums() if f not in figs]
        want_new = 1 if where == "own figure" or (where == "current axes" and not figs) else 0
        need(len(new) == want_new, "new-figures", "%s made %d new figures, expected %d" % (what, len(new), want_new))
        others_same(before, target_fig, target_ax, what)
        if e["op"] == "plot_origin":
            gx = plt.gca()
        else:
            need(isinstance(out, tuple) and len(out) == 2, "returned", "%s returned %r" % (what, type(out)))
            fig, gx = out
            if e["op"] == "composite":
                need(len(gx) == 4 and all(a.get_figure() is fig for a in gx) and list(fig.axes) == list(gx), "returned", "%s: axes returned are not those of the figure" % what)
                gx = gx[2]
            need(gx.get_figure() is fig, "returned", "%s: axes of another figure returned" % what)
        if target_ax is not None:
            need(gx is target_ax, "returned", "%s was drawn in other axes than expected" % what)
        if new:
            need(gx.get_figure().number == new[0], "returned", "%s: the figure returned is not the new one" % what)
        if ax is not None and cur[0] is not None:
            now = current()
            need(now[0] is cur[0] and now[1] is cur[1], "current", "%s changed which axes are current" % what)
        # what was added
        dx, dy = Y[:, 1] - Y[:, 0], wY[:, 1] - wY[:, 0]
        pts, lines, texts = points(gx), gx.lines, gx.texts
        if e["op"] in ("rose", "plot", "composite"):
            need(len(pts) == had[0] + 1, "added", "%s added %d sets of points" % (what, len(pts) - had[0]))
            same(pts[-1], np.column_stack([np.arctan2(dy, dx), np.hypot(dx, dy)]), "added", what, rtol=1e-7)
            c = [c for c in gx.collections if type(c).__name__ == "PathCollection"][-1]
            if e["op"] != "composite":
                need(abs(c.get_alpha() - e["kw"].get("alpha", 0.9)) < 1e-12, "added", "%s: points have alpha %s" % (what, c.get_alpha()))
                if e["attr"]:
                    same(np.asarray(c.get_array(), float), attr, "added", what + ": colours")
                if new:
                    need(len(gx.get_figure().axes) == 1 + bool(e["attr"]), "added", "%s: %d axes in the new figure" % (what, len(gx.get_figure().axes)))
        elif e["op"] in ("vectors", "plot_vectors"):
            got = lines[had[1]:]
            need(len(got) == n, "added", "%s added %d lines for %d units" % (what, len(got), n))
            for q, ln in enumerate(got):
                same(np.column_stack([ln.get_xdata(), ln.get_ydata()]), np.column_stack([Y[q], wY[q]]), "added", "%s: vector %d" % (what, q))
            need(len(texts) - had[2] == (n if e["arrows"] else 0), "added", "%s has %d arrows" % (what, len(texts) - had[2]))
        elif e["op"] == "plot_origin":
            got = lines[had[1]:]
            need(len(got) == n, "added", "%s added %d lines for %d units" % (what, len(got), n))
            for q, ln in enumerate(got):
                same(np.column_stack([ln.get_xdata(), ln.get_ydata()]), np.array([[0.0, 0.0], [dx[q], dy[q]]]), "added", "%s: vector %d" % (what, q), rtol=1e-7)
        else:
            need(len([c for c in gx.collections if type(c).__name__ == "QuadMesh"]) == 1, "added", "%s: no heatmap in the axes" % what)
        ctx.hit("plot:%s in %s" % (e["op"], where))
        ctx.state(e["op"], where, len(figs), bool(e.get("fault")), e["attr"])
        ctx.nontrivial = ctx.nontrivial or bool(figs)
        hist.append([e["op"], where, len(figs)])
    plt.close("all")
    ctx.sig = [hist, s["ev"]]
    ctx.event(hist)


def shrink(s):
    for c in drop_each(s["ev"]):
        yield dict(s, ev=c)
    for j, e in enumerate(s["ev"]):
        put = lambda d: dict(s, ev=s["ev"][:j] + [d] + s["ev"][j + 1:])
        if e.get("fault"):
            yield put({k: v for k, v in e.items() if k != "fault"})
        if "rng" in e:
            for r in R.shrink(e["rng"]):
                yield put(dict(e, rng=r))
