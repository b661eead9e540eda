import logging
import sys

import numpy as np

try:
    import ipywidgets
except ImportError:          # the part that needs it is skipped (see the probes in the evidence)
    ipywidgets = None

from .. import faults as F, inputs as I, lisafig as L, observe as O, procstate, rngseam as R
from ..boot import G
from ..util import need, quiet

ID = "U01"
PLAN = {"quick": (600, 80), "thorough": (8000, 850)}
RULE = ("a run = one to three explorers over one data frame, driven through the real ipywidgets controls by a history of selections (repeated, reversed, failing, interrupted), edits of the frame, permutations and plots of the Roses; "
        "every figure drawn is recounted from the selected columns. Non-trivial: at least two figures drawn; distinct by history and tables")
STATES = "distinct (pair selected, transition table)"
REAL = ["giddy.plotting, giddy.directional", "ipywidgets controls and their update protocol", "matplotlib (Agg)", "seaborn", "geopandas", "numpy's legacy generator",
        "libpysal weights", "esda local Moran"]
STUB = ["the notebook front end (events are set on the controls; output widgets are not displayed)",
        "numba (esda's kernels run interpreted; the private generator of its conditional randomisation is seeded from the simulated global stream)"]


def gen(rng, i, tier):
    n = rng.randrange(5, 11)
    if rng.random() < 0.08:
        return {"missing": True, "n": n, "Y": I.vals(rng, n, 2, kind="f"), "w": I.gen_w(rng, n)}
    cols = rng.sample(["a_rel", "b_rel", "c_rel", "rel", "a_raw", "b_raw", "rel_x"], rng.choice([3, 4, 5, 6]))
    odd = rng.random() < 0.12             # names with characters that mean something elsewhere
    if odd:
        cols = rng.sample(["a.rel", "b.rel", "axrel", "p+", "q+", "u(1)", "v(1)", "[1]", "x1", "99.", "a*", "b*"], rng.choice([4, 6, 8]))
    data = {c: I.vals(rng, n, kind=rng.choice("fffm"))["a"] for c in cols}
    for c in cols:
        if len(set(data[c])) == 1:
            data[c][0] += 1
    nex = rng.choice([1, 1, 2, 2, 3])
    pats = [q for q in ("rel", "_rel", "raw", "_raw") if sum(c.endswith(q) for c in cols) > 1] * 4 + ["", "x", "a_rel", "zzz", "name", "rel"]
    if odd:
        pats = [q for q in (".rel", "+", "(1)", "]", ".", "*", "1)", "rel") if sum(c.endswith(q) for c in cols)] + [".", "*"]
    ex = []
    for _ in range(nex):
        ex.append({"Y": I.vals(rng, n, 2, kind="f"), "k": rng.choice([4, 5, 8]), "w": I.gen_w(rng, n, ids=rng.choice(["int", "str"])),
                   "pattern": rng.choice(pats),
                   "p": rng.choice([0.05, 0.3, 0.5, 0.9, 1.0]), "figsize": rng.choice([None, [13, 10], [6, 4], [7.5, 9]]),
                   "rng": R.gen(rng, n - 1)})
        if len(ex) > 1 and rng.random() < 0.4:       # two explorers of the same Rose
            ex[-1].update({a: ex[0][a] for a in ("Y", "k", "w")}, share=True)
    ev = []
    for _ in range(rng.choice([2, 3, 4, 5])):
        r = rng.random()
        e = rng.randrange(nex)
        if r < 0.12:
            ev.append({"op": "swap", "ex": e, "v": rng.randrange(1 << 20), "rng": R.gen(rng, n - 1)})
        elif r < 0.66:
            ev.append({"op": "select", "ex": e, "which": rng.choice(["start_time", "end_time"]), "u": round(rng.random(), 4),
                       "rng": R.gen(rng, n - 1)})
            if rng.random() < 0.2:
                ev[-1]["fault"] = dict(F.gen_fault(rng, "call"), mode="call")
        elif r < 0.78:
            ev.append({"op": "permute", "ex": e, "P": rng.choice([1, 3]), "rng": R.gen(rng, n)})
        elif r < 0.88:
            ev.append({"op": rng.choice(["rose", "vectors", "heatmap"]), "ex": e, "rng": R.gen(rng, n - 1)})
        else:
            ev.append({"op": "edit", "col": rng.choice(cols), "v": I.vals(rng, n, kind="f")["a"]})
    return {"n": n, "data": data, "first": rng.random() < 0.5, "ex": ex, "ev": ev, "keep": rng.random() < 0.4}


def frozen(rose):
    return [(a, v) for a, v in O.public(rose)]


def missing(s, ctx):
    import matplotlib.pyplot as plt
    gdf = I.frame(s["n"], {"a": I.arr(s["Y"])[:, 0]})
    with quiet():
        rose = G["directional"].Rose(I.arr(s["Y"]), I.w_of(s["w"]))
    was, ps = frozen(rose), procstate.take()
    st = np.random.get_state()
    for m in [m for m in sys.modules if m.split(".")[0] == "ipywidgets"]:
        del sys.modules[m]
    sys.modules["ipywidgets"] = None
    exc = None
    try:
        with quiet():
            G["plotting"].dynamic_lisa_composite_explore(rose, gdf)
    except BaseException as e:
        exc = e
    need(isinstance(exc, ImportError), "no-import-error", "without ipywidgets the call gave %r" % exc)
    d = O.diff(O.canon(frozen(rose)), O.canon(was), "rose", rtol=1e-12, atol=0.0)
    need(d is None, "changed", str(d))
    need(not plt.get_fignums(), "changed", "a figure was made")
    need(R.same(st, np.random.get_state()), "changed", "the random stream moved")
    d = procstate.diff(ps, procstate.take())
    need(not d, "changed", str(d))
    ctx.hit("fault:ipywidgets missing")
    ctx.nontrivial = True
    ctx.sig = ["missing"]


def run(s, ctx):
    if s.get("missing"):
        return missing(s, ctx)
    if ipywidgets is None:
        ctx.hit("ipywidgets not installed: skipped")
        return
    import matplotlib.pyplot as plt
    logging.getLogger("traitlets").disabled = True
    n = s["n"]
    cols = {c: np.array(v) for c, v in s["data"].items()}
    cols["name"] = ["u%d" % j for j in range(n)]
    gdf = I.frame(n, cols)
    if not s["first"]:
        gdf = gdf[[c for c in gdf.columns if c != "geometry"] + ["geometry"]]
    G["plotting"], G["directional"]
    exs, hist = [], []
    drawn = 0
    mine = {}       # figures left open, and what they showed

    def close():
        """Closes what the step drew; in some runs the checked figures stay open, and must stay as they are."""
        if not s.get("keep"):
            plt.close("all")
            return
        for f in plt.get_fignums():
            if f not in mine:
                plt.close(f)
        for f, (fig, was) in mine.items():
            now = plt._pylab_helpers.Gcf.figs.get(f)
            need(now is not None and now.canvas.figure is fig, "figure", "figure %d, drawn earlier, is gone" % f)
            d = O.diff(O.canon(O.figure(fig)), O.canon(was), "figure %d, drawn earlier" % f)
            need(d is None, "figure", str(d))
        if len(mine) >= 4:
            plt.close("all")
            mine.clear()

    def check_draw(e, st, before):
        """Exactly one new figure, of the selected pair, or none if the selection cannot be drawn."""
        nonlocal drawn
        x = exs[e]
        a, b = x["ctl"]["start_time"].value, x["ctl"]["end_time"].value
        ok = a in s["data"] and b in s["data"]
        what = "explorer %d at (%s, %s)" % (e, a, b)
        if ok:
            new = [f for f in plt.get_fignums() if f not in before]
            need(len(new) == 1, "figure", "%s drew %d figures" % (what, len(new)))
            fig = plt.figure(new[0])
            size = s["ex"][e]["figsize"] or [13, 10]
            need(np.allclose(fig.get_size_inches(), size), "figure", "%s: figure size %s, asked for %s" % (
                what, fig.get_size_inches(), size))
            Y = np.column_stack([np.asarray(gdf[a], float), np.asarray(gdf[b], float)])
            need(R.same(st, np.random.get_state()), "stream-moved", "%s moved the random stream" % what)
            p, ml, want = L.tables(Y, s["ex"][e]["w"], s["ex"][e]["p"], st)
            L.check_composite(fig, Y, s["ex"][e]["w"], gdf, p, ml, want, what)
            ctx.state(a, b, want.tolist())
            hist.append([e, want.tolist()])
            drawn += 1
            ctx.hit("figures checked")
            if s.get("keep"):
                mine[new[0]] = (fig, O.figure(fig))
        else:
            ctx.hit("fault:selection that cannot be drawn")
        close()

    def unchanged(what):
        for e, x in enumerate(exs):
            d = O.diff(O.canon(frozen(x["rose"])), O.canon(x["frozen"]), "Rose %d" % e, rtol=1e-12, atol=0.0)
            need(d is None, "changed", "%s: %s" % (what, d))
            d = O.diff(O.canon(I.w_print(x["w"])), O.canon(x["wp"]), "weights %d" % e, rtol=1e-12, atol=0.0)
            need(d is None, "changed", "%s: %s" % (what, d))
        d = O.diff(O.canon(gdf), frame0[0], "data frame", rtol=1e-12, atol=0.0)
        need(d is None, "changed", "%s: %s" % (what, d))

    frame0 = [O.canon(gdf)]
    for e, d in enumerate(s["ex"]):
        w = I.w_of(d["w"])
        with quiet():
            rose = G["directional"].Rose(I.arr(d["Y"]), w, d["k"])
        if d.get("share") and e and all(d[a] == s["ex"][0][a] for a in ("Y", "k", "w")):
            rose, w = exs[0]["rose"], exs[0]["w"]
        exs.append({"rose": rose, "w": w, "frozen": frozen(rose), "wp": I.w_print(w)})
        made = []
        ipywidgets.Widget.on_widget_constructed(made.append)
        R.apply(d["rng"])
        st = np.random.get_state()
        kw = {"p": d["p"], "pattern": d["pattern"]}
        if d["figsize"]:
            kw["figsize"] = tuple(d["figsize"])
        with quiet():
            r = G["plotting"].dynamic_lisa_composite_explore(rose, gdf, **kw)
        ipywidgets.Widget.on_widget_constructed(None)
        ctl = {}
        for m in made:
            nm = getattr(m, "_kwarg", None) or getattr(m, "description", None)
            if nm in ("start_time", "end_time") and hasattr(m, "options"):
                ctl[nm] = m
        need(set(ctl) == {"start_time", "end_time"}, "controls", "controls found: %s" % sorted(ctl))
        exs[e]["ctl"] = ctl
        want = [c for c in gdf.columns if c.endswith(d["pattern"])]
        for nm, m in ctl.items():
            need(sorted(m._options_labels) == sorted(want) and list(m._options_values) == list(m._options_labels), "options",
                 "explorer %d offers %s for %s, columns ending with %r: %s" % (e, list(m._options_labels), nm, d["pattern"], want))
        check_draw(e, st, list(mine))
        unchanged("explorer %d opened" % e)
    todo = list(enumerate(s["ev"]))
    while todo:
        j, v = todo.pop(0)
        if v["op"] == "swap":
            # the two times change places; what lies between cannot be drawn, or is interrupted
            ctl = exs[v["ex"]]["ctl"]
            a, b = ctl["start_time"].value, ctl["end_time"].value
            bad = [o for o in ctl["start_time"]._options_values if o not in s["data"]]
            one, two = ("start_time", "end_time") if v["v"] % 2 else ("end_time", "start_time")
            base = {"op": "select", "ex": v["ex"], "rng": v["rng"]}
            was = {"start_time": b, "end_time": a}
            if bad and v["v"] % 3:
                seq = [dict(base, which=one, to=bad[v["v"] % len(bad)]), dict(base, which=two, to=was[two]), dict(base, which=one, to=was[one])]
            else:
                seq = [dict(base, which=one, to=was[one], fault={"kind": "interrupt", "loc": 0.0 if v["v"] % 5 else 0.4, "occ": 0.0}),
                       dict(base, which=two, to=was[two])]
            todo[:0] = [(j, q) for q in seq]
            ctx.hit("times exchanged")
            continue
        if "rng" in v:
            R.apply(v["rng"])
        st = np.random.get_state()
        before = plt.get_fignums()
        if v["op"] == "edit":
            gdf[v["col"]] = np.array(v["v"])
            frame0[0] = O.canon(gdf)
            ctx.hit("data frame edited")
            continue
        x = exs[v["ex"]]
        if v["op"] == "permute":
            with quiet():
                x["rose"].permute(v["P"])
            for q in exs:
                if q["rose"] is x["rose"]:
                    q["frozen"] = frozen(x["rose"])
        elif v["op"] == "select":
            c = x["ctl"][v["which"]]
            if not c._options_values:
                continue
            to = v["to"] if "to" in v else c._options_values[int(v["u"] * len(c._options_values))]
            if to == c.value:
                ctx.hit("selection repeated")
                continue
            inj = None
            if v.get("fault"):
                def dry():
                    rec = F.recorder("call")
                    with quiet(), rec:
                        try:
                            c.value = to
                        except Exception:
                            pass
                    return rec.count
                inj = F.injector("call", F.forked(dry), v["fault"])
                try:
                    with quiet(), inj:
                        c.value = to
                except BaseException:
                    pass
            else:
                with quiet():
                    c.value = to
            if inj is not None and inj.fired:
                ctx.hit("fault:%s while drawing" % v["fault"]["kind"])
                close()
                np.random.set_state(st)
            else:
                check_draw(v["ex"], st, before)
        else:
            with quiet():
                plt.figure()
                fn = {"rose": "dynamic_lisa_rose", "vectors": "dynamic_lisa_vectors", "heatmap": "dynamic_lisa_heatmap"}[v["op"]]
                getattr(G["plotting"], fn)(x["rose"])
            ctx.hit("plots of the Rose in between")
            close()
        unchanged("event %d (%s)" % (j, v["op"]))
    ctx.nontrivial = drawn >= 2
    ctx.sig = [hist]
    ctx.event(hist)


def shrink(s):
    if s.get("missing"):
        return
    if s.get("keep"):
        yield dict(s, keep=False)
    ev, ex = s["ev"], s["ex"]
    for j in range(len(ev)):
        yield dict(s, ev=ev[:j] + ev[j + 1:])
    for e in range(len(ex)):
        if len(ex) > 1:
            yield dict(s, ex=ex[:e] + ex[e + 1:],
                       ev=[dict(v, ex=v["ex"] - (v["ex"] > e)) if "ex" in v else v for v in ev if v.get("ex") != e])
    for j, v in enumerate(ev):
        if v.get("fault"):
            yield dict(s, ev=ev[:j] + [dict(v, fault=None)] + ev[j + 1:])
        if "rng" in v:
            for r in R.shrink(v["rng"]):
                yield dict(s, ev=ev[:j] + [dict(v, rng=r)] + ev[j + 1:])
    for e, x in enumerate(ex):
        for a, b in (("figsize", None), ("k", 4), ("p", 0.05)):
            if x[a] != b:
                yield dict(s, ex=ex[:e] + [dict(x, **{a: b})] + ex[e + 1:])
