"""Every public operation of the library, over a small shared world of inputs.

A world is what one user session holds: panels, vectors, weights, matrices, names, a data frame.
A session is a list of steps:
  {"new": operation, "a": arguments, "rng": stream}          an analysis of the world's inputs
  {"on": i, "m": method, "a": arguments, "rng": stream}      a method call on the result of step i
  {"mut": item, "v": seed}                                   the user changes one of the arrays in place
"""
import contextlib
import io
import itertools
import os
import random
import sys
import warnings

import numpy as np

from . import inputs as I, observe as O, rngseam as R
from .boot import G
from . import core
from .core import Violation


# ------------------------------------------------------------------ world
def gen_world(rng, ids=None, n=None, same_shape=True):
    k = rng.choice([3, 3, 4])
    if n is None:
        u = rng.random()
        if u < 0.05:         # many classes
            k = rng.choice([11, 12, 13])
            n = k + 2
        elif u < 0.08:       # many units
            n = rng.choice([24, 40])
        else:
            n = rng.randrange(5, 9)
    t = rng.randrange(3, 6)
    m = rng.choice([2, 3])

    def stoch(zero=0.0, pat=None):
        out = []
        for i in range(k):
            row = [rng.choice([0, 1, 2, 3, 5]) if zero else rng.choice([1, 2, 3, 5]) for _ in range(k)]
            if sum(row) == 0:
                row[i] = 1
            s = float(sum(row))
            out.append([round(v / s, 12) for v in row])
        for row in out:
            row[-1] = round(1.0 - sum(row[:-1]), 12)
            if row[-1] < 0:
                row[-1] = 0.0
        return out

    def counts(zero=0.25):
        return [[0 if rng.random() < zero else rng.randrange(1, 30) for _ in range(k)] for _ in range(k)]

    def vec(kind=None):
        return I.vals(rng, n, kind=kind)

    panel, panel2 = I.panel(rng, n, t), I.panel(rng, n, t)
    Y2, Y2b = I.vals(rng, n, 2, kind="f"), I.vals(rng, n, 2, kind="f")
    x, y, z = vec(), vec(), vec("f")
    alike = rng.random()
    if alike < 0.2:      # different data with the same shape, sum, extremes, set of values
        again = lambda d: dict(d, a=rng.sample(d["a"], len(d["a"])))
        panel2, Y2b, y = again(panel), again(Y2), again(x)
    elif alike < 0.3:    # the same data twice, or all but the same
        panel2, Y2b, y = dict(panel), dict(Y2), dict(x)
        if rng.random() < 0.7:
            j = rng.randrange(n)
            panel2["a"] = [list(v) for v in panel["a"]]
            panel2["a"][j] = panel2["a"][j][::-1]
            Y2b["a"] = [list(v) for v in Y2["a"]]
            Y2b["a"][j] = Y2b["a"][j][::-1]
    flat = sorted({v for r in panel["a"] for v in r})
    reg = [i % 2 for i in range(n)] if rng.random() < 0.5 else list(I.names(rng, 2) * n)[:n]
    rng.shuffle(reg)
    p0 = stoch(1)
    p0[rng.randrange(k)] = [0.0] * k
    pr = stoch(1)
    pr[k - 1] = [0.0] * (k - 1) + [1.0]
    p3 = [stoch(1) for _ in range(m)]
    p3[0][1] = [0.0] * k
    seq = I.classes(rng, n, t, k)
    fz = rng.choice([0.0, 0.0, 0.15])
    ini = [1.0 / k] * k
    if rng.random() < 0.5:
        v = [rng.choice([1, 2, 3, 4]) for _ in range(k)]
        ini = [round(q / sum(v), 3) for q in v]
    kinds = rng.choice(["", "", "", "", "int", "f4", "view"])
    if kinds == "int":
        panel = {"a": [[int(2 * v) + 1 for v in r] for r in panel["a"]], "dt": "i8"}
        flat = sorted({v for r in panel["a"] for v in r})
    elif kinds == "f4":
        panel = dict(panel, dt="f4")
    elif kinds == "view":
        panel2, Y2, seq = dict(panel2, ord="V"), dict(Y2, ord="V"), seq
    return {
        "n": n, "t": t, "k": k, "m": m, "panel": panel, "panel2": panel2, "x": x, "y": y, "z": z,
        "Y2": Y2, "Y2b": Y2b, "cls": {"a": seq, "dt": "i8"},
        "clsS": {"a": I.classes(rng, n, t, k, I.names(rng, k)), "dt": "U"},
        "reg": reg, "w": I.gen_w(rng, n, ids=ids or rng.choice(["int", "str", "intshift"]), sym=rng.random() < 0.8),
        "wi": I.gen_w(rng, n, ids="int"), "p": stoch(), "pr": pr, "p0": p0, "p3": p3,
        "Ts": [counts() for _ in range(m)], "T1": counts(0.1), "T2": counts(0.1), "F": [counts(fz) for _ in range(m)],
        "cut": sorted(rng.sample(flat, min(len(flat) - 1, 2))), "lcut": sorted({round(rng.uniform(1, 5), 2) for _ in range(2)}),
        "cnames": ["N%d" % i for i in range(k)], "rnames": ["R%d" % i for i in range(m)],
        "subs": [[0 if i == j else 1 + abs(i - j) * 0.25 for j in range(k)] for i in range(k)],
        "gcols": rng.sample(["p", "q", "cl", "sig", "labels", "Y", "wY", "significance"], rng.choice([0, 0, 1, 4])), "ini": ini, "attr": vec("f"), "perm_ids": list(range(n)), "nodes": rng.sample(range(n), min(n, 4)),
        "stochk": k, **second(rng, n, k, m, stoch, counts, reg),
    }


def second(rng, n, k, m, stoch, counts, reg):
    """Other data of the same shapes."""
    d = _second(rng, n, k, m, stoch, counts, reg)
    if rng.random() < 0.25:      # almost the data of the first kind
        d["near"] = rng.choice([1e-4, 1e-6, 1e-9])
    return d


def _second(rng, n, k, m, stoch, counts, reg):
    return {"q": stoch(), "q3": [stoch(1) for _ in range(m)], "Ts2": [counts() for _ in range(m)], "F2": [counts(0.0) for _ in range(m)],
            "subs2": [[0 if i == j else 2 - 1.0 / (1 + abs(i - j)) for j in range(k)] for i in range(k)],
            "ini2": [round(v / (k * (k + 1) / 2), 3) for v in range(1, k + 1)], "reg2": rng.sample(reg, n), "attr2": I.vals(rng, n, kind="f"),
            "wj": I.gen_w(rng, n, ids="int")}


ARRAYS = ("panel", "panel2", "x", "y", "z", "Y2", "Y2b", "cls", "clsS", "attr", "attr2")
MATS = ("p", "pr", "p0", "p3", "q", "q3", "T1", "T2", "F", "F2", "subs", "subs2", "ini", "ini2")


class World:
    def __init__(self, spec):
        self.spec = spec
        for a in ARRAYS:
            setattr(self, a, I.arr(spec[a]))
        for a in MATS:
            setattr(self, a, np.array(spec[a], dtype=float))
        if "near" in spec:
            for a, b in (("q", "p"), ("ini2", "ini")):
                v = np.array(spec[b], dtype=float)
                v[..., 0] += spec["near"]
                v[..., -1] -= spec["near"]
                setattr(self, a, v if v.min() >= 0 else np.array(spec[b], dtype=float))
            self.q3 = self.p3.copy()
            self.q3[0, 0] = self.q3[0, 0][::-1]
            self.F2 = self.F.copy()
            self.F2[0, 0, 0] += 1
            self.subs2 = self.subs + spec["near"] * (self.subs > 0)
            for a in ("x", "Y2", "panel"):
                v = getattr(self, a)
                b = {"x": "y", "Y2": "Y2b", "panel": "panel2"}[a]
                if v.dtype == np.float64 and getattr(self, b).dtype == v.dtype:
                    getattr(self, b)[...] = v
                    getattr(self, b)[tuple(j - 1 for j in v.shape)] += spec["near"]
        self.reg, self.reg2 = np.array(spec["reg"]), np.array(spec["reg2"])
        self.w, self.wi, self.wj = I.w_of(spec["w"]), I.w_of(spec["wi"]), I.w_of(spec["wj"])
        for a in ("cut", "lcut", "cnames", "rnames", "nodes"):
            setattr(self, a, list(spec[a]))
        self.Ts, self.Ts2 = ([np.array(t, dtype=float) for t in spec[a]] for a in ("Ts", "Ts2"))
        self.ids = np.array(spec["perm_ids"])
        n = spec["n"]
        self.X = np.arange(n * n, dtype=float).reshape(n, n)
        self.X2 = self.X[::-1] * 2.0 + 1
        self.clsL = self.cls.tolist()
        self.clsR, self.clsSR = (np.unique(c)[::-1].copy() for c in (self.cls, self.clsS))
        self.pL, self.prL, self.p0L, self.p3L = (getattr(self, a).tolist() for a in ("p", "pr", "p0", "p3"))
        import pandas as pd
        self.clsF, self.clsB, self.clsD = self.cls.astype(float), self.cls > 0, pd.DataFrame(self.cls.copy())
        self.xL, self.yL, self.regL = self.x.tolist(), self.y.tolist(), self.reg.tolist()
        self.rag = np.empty(n, dtype=object)      # sequences of different lengths
        self.rag[:] = [r[:1 + j % spec["t"]] for j, r in enumerate(self.cls.tolist())]
        self._wg = None
        self.panelD = pd.DataFrame(self.panel.copy(), columns=["t%d" % j for j in range(spec["t"])])
        self._gdf = None
        self.k, self.m, self.n, self.t = spec["k"], spec["m"], n, spec["t"]

    @property
    def wg(self):
        """The weights as a Graph (libpysal's newer kind of weights)."""
        if self._wg is None:
            from libpysal.graph import Graph
            self._wg = Graph.from_W(I.w_of(self.spec["w"]))
        return self._wg

    @property
    def gdf(self):
        if self._gdf is None:
            self._gdf = I.frame(self.n, dict({"inc_%d" % j: self.panel[:, j] for j in range(self.t)},
                                             **{c: self.panel[:, 0] for c in self.spec.get("gcols", [])}))
        return self._gdf

    def prints(self):
        """canonical form of everything the caller holds"""
        out = []
        for a in ARRAYS + MATS + ("reg", "reg2", "ids", "X", "X2", "clsL", "clsR", "clsSR", "pL", "prL", "p0L", "p3L", "panelD", "Ts", "Ts2", "clsF", "clsB", "clsD", "rag", "xL", "yL", "regL", "cut", "lcut", "cnames", "rnames", "nodes"):
            v = getattr(self, a)
            if isinstance(v, np.ndarray):
                out.append((a, (v.shape, str(v.dtype), v.strides, v.flags.writeable, v.tobytes())))
            else:
                out.append((a, O.canon(v)))
        for a in ("w", "wi", "wj"):
            out.append((a, I.w_print(getattr(self, a))))
            out.append((a + ".data", {k: repr(v)[:40] for k, v in sorted(vars(getattr(self, a)).items())
                                      if k in ("_transform", "silence_warnings", "_id_order_set", "_n", "_varnames")}.__repr__()))
        if self._wg is not None:
            out.append(("wg", O.canon(self._wg.adjacency.reset_index())))
        if self._gdf is not None:
            out.append(("gdf", O.canon(self._gdf), self._gdf.shape, tuple(map(str, self._gdf.index))))
        return out

    def mutate(self, item, seed, fresh=False):
        """The user changes one of the arrays in place (it stays valid input), or replaces it by a changed copy."""
        v = getattr(self, item)
        r = random.Random(seed)
        if fresh and item not in ("w", "wi", "wj", "Ts", "Ts2"):
            v = v.copy()
            setattr(self, item, v)
        if item in ("w", "wi", "wj"):
            v.transform = r.choice(["r", "b", "o"])
        elif item in ("Ts", "Ts2"):
            v[r.randrange(len(v))][...] += r.choice([1.0, 2.0])
        elif item in ("reg", "reg2"):
            a, b = r.sample(range(len(v)), 2)
            v[[a, b]] = v[[b, a]]
        elif item in ("cls", "clsS", "x", "y", "z", "panel", "panel2", "Y2", "Y2b", "attr", "attr2"):
            a, b = r.sample(range(len(v)), 2)
            v[[a, b]] = v[[b, a]]
            if v.dtype.kind in "fi" and item not in ("cls",) and r.random() < 0.6:
                v += v.dtype.type(1)
            if v.ndim == 2 and r.random() < 0.3:     # (same values, other places)
                v[:] = v[:, ::-1].copy()
        elif item in ("subs", "subs2"):
            v *= 1.5
        else:
            v[...] = v[::-1].copy()


def changed(before, after):
    was = {a: x for a, *x in before}
    for a, *y in after:
        if a not in was:      # (made since)
            continue
        x = was[a]
        if repr(x) != repr(y):
            if O.diff(O.canon(x[0]) if a not in ("w", "wi", "wj") else repr(x[0]),
                      O.canon(y[0]) if a not in ("w", "wi", "wj") else repr(y[0])) or len(x) != len(y):
                return a
            if repr(x[1:]) != repr(y[1:]):
                return a
    return None


# ------------------------------------------------------------------ operations
OPS = {}


def op(name, rand=False, plot=False, **choices):
    def deco(fn):
        OPS[name] = {"fn": fn, "choices": choices, "rand": rand, "plot": plot}
        return fn
    return deco


PERM = [0, 3, 9]


@op("Markov", src=["cls", "clsS", "clsL", "clsF", "clsB", "clsD"], classes=[False, True, "own"], fill=[False, True], summary=[False, True])
def _(W, a):
    cls = None
    if a["classes"]:
        cls = np.unique(np.asarray(getattr(W, a["src"])))
        if a["classes"] == "own":      # (in the user's order, in an array of the user's)
            cls = W.clsSR if a["src"] == "clsS" else cls[::-1] if a["src"] == "clsB" else W.clsR
    return G["markov"].Markov(getattr(W, a["src"]), classes=cls, fill_empty_classes=a["fill"], summary=a["summary"])


@op("Spatial_Markov", rand=lambda a: a["P"] > 0, y=["panel", "panel2", "panel", "panel2", "panelD"], P=PERM, fixed=[True, True, False], k=[2, 3, 4], m=[2, 3, 4],
    cut=[False, False, True], lcut=[False, False, True], fill=[False, True], vname=[None, "income"], w=["w"] * 5 + ["wj", "wj", "wg"])
def _(W, a):
    return G["markov"].Spatial_Markov(getattr(W, a["y"]), getattr(W, a.get("w", "w")), k=a["k"], m=a["m"], permutations=a["P"], fixed=a["fixed"],
                                      cutoffs=W.cut if a["cut"] else None, lag_cutoffs=W.lcut if a["lcut"] else None,
                                      variable_name=a["vname"], fill_empty_classes=a["fill"])


@op("Spatial_Markov_discrete", rand=True, y=["cls", "clsS", "cls", "clsS", "clsF", "clsB"], P=[0, 3], fill=[False, True], w=["w", "w", "wj"])
def _(W, a):
    return G["markov"].Spatial_Markov(getattr(W, a["y"]), getattr(W, a["w"]), permutations=a["P"], discrete=True, fill_empty_classes=a["fill"])


@op("LISA_Markov", rand=lambda a: a["P"] > 0, y=["panel", "panel2"], P=[0, 9, 19], lev=[0.05, 0.3, 1.0], geoda=[False, True], w=["w", "w", "wj"])
def _(W, a):
    return G["markov"].LISA_Markov(getattr(W, a["y"]), getattr(W, a["w"]), permutations=a["P"], significance_level=a["lev"],
                                   geoda_quads=a["geoda"])


@op("FullRank_Markov", y=["panel", "panel2", "panelD"], fill=[False, True], summary=[False, True])
def _(W, a):
    return G["markov"].FullRank_Markov(getattr(W, a["y"]), fill_empty_classes=a["fill"], summary=a["summary"])


@op("GeoRank_Markov", y=["panel", "panel2", "panelD"], fill=[False, True], summary=[False, True])
def _(W, a):
    return G["markov"].GeoRank_Markov(getattr(W, a["y"]), fill_empty_classes=a["fill"], summary=a["summary"])


@op("kullback", F=["F", "F2"])
def _(W, a):
    return G["markov"].kullback(getattr(W, a["F"]))


@op("prais", p=["p", "q", "pr", "pL"])
def _(W, a):
    return G["markov"].prais(getattr(W, a["p"]))


@op("homogeneity", Ts=["Ts", "Ts2"], names=[False, True])
def _(W, a):
    if a["names"]:
        return G["markov"].homogeneity(getattr(W, a["Ts"]), W.rnames, W.cnames, "title")
    return G["markov"].homogeneity(getattr(W, a["Ts"]))


@op("chi2", T=["T1T2", "T2T1"])
def _(W, a):
    return G["markov"].chi2(getattr(W, a["T"][:2]), getattr(W, a["T"][2:]))


@op("sojourn_time", p=["p", "q", "pr", "p0", "p0L"])
def _(W, a):
    return G["markov"].sojourn_time(getattr(W, a["p"]))


@op("steady_state", p=["p", "q", "p", "q", "pr", "p0", "prL", "p0L"], fill=[False, True])
def _(W, a):
    return G["ergodic"].steady_state(getattr(W, a["p"]), fill_empty_classes=a["fill"])


@op("mfpt", p=["p", "q", "p", "q", "pr", "p0", "prL", "p0L"], fill=[False, True])
def _(W, a):
    return G["ergodic"].mfpt(getattr(W, a["p"]), fill_empty_classes=a["fill"])


@op("fmpt", p=["p", "q", "pr"])
def _(W, a):
    return G["ergodic"].fmpt(getattr(W, a["p"]))


@op("var_mfpt_ergodic", p=["p", "q"], old=[False, True])
def _(W, a):
    return G["ergodic"].var_fmpt_ergodic(getattr(W, a["p"])) if a["old"] else G["ergodic"].var_mfpt_ergodic(getattr(W, a["p"]))


@op("markov_mobility", p=["p", "q", "pr", "pL"], measure=["P", "D", "L2", "B1", "B2"], ini=[None, "ini", "ini2"])
def _(W, a):
    return G["mobility"].markov_mobility(getattr(W, a["p"]), measure=a["measure"], ini=getattr(W, a["ini"]) if a["ini"] else None)


@op("Theta", rand=lambda a: a["P"] > 0, y=["panel", "panel2"], P=PERM, reg=["reg", "reg2"])
def _(W, a):
    return G["rank"].Theta(getattr(W, a["y"]), getattr(W, a["reg"]), a["P"])


@op("Tau", x=["x", "y", "xL"], y=["y", "z", "yL"])
def _(W, a):
    return G["rank"].Tau(getattr(W, a["x"]), getattr(W, a["y"]))


@op("SpatialTau", rand=lambda a: a["P"] > 0, x=["x", "y"], y=["y", "z"], P=PERM, w=["wi", "wi", "wj"])
def _(W, a):
    return G["rank"].SpatialTau(getattr(W, a["x"]), getattr(W, a["y"]), getattr(W, a["w"]), a["P"])


@op("Tau_Local", x=["x", "y", "xL"], y=["y", "z", "yL"])
def _(W, a):
    return G["rank"].Tau_Local(getattr(W, a["x"]), getattr(W, a["y"]))


@op("Tau_Local_Neighbor", rand=lambda a: a["P"] > 0, x=["x", "y", "x", "xL"], y=["y", "z", "y", "yL"], P=PERM, w=["wi", "wi", "wj"])
def _(W, a):
    return G["rank"].Tau_Local_Neighbor(getattr(W, a["x"]), getattr(W, a["y"]), getattr(W, a["w"]), a["P"])


@op("Tau_Local_Neighborhood", rand=lambda a: a["P"] > 0, x=["x", "y", "x", "xL"], y=["y", "z", "y", "yL"], P=PERM, w=["wi", "wi", "wj"])
def _(W, a):
    return G["rank"].Tau_Local_Neighborhood(getattr(W, a["x"]), getattr(W, a["y"]), getattr(W, a["w"]), a["P"])


@op("Tau_Regional", rand=lambda a: a["P"] > 0, x=["x", "y", "x", "xL"], y=["y", "z", "y", "yL"], P=PERM, reg=["reg", "reg2", "regL"])
def _(W, a):
    return G["rank"].Tau_Regional(getattr(W, a["x"]), getattr(W, a["y"]), getattr(W, a.get("reg", "reg")), a["P"])


@op("Rose", Y=["Y2", "Y2b"], k=[4, 8, 8, 5], w=["w"] * 7 + ["wj", "wj", "wg"])
def _(W, a):
    return G["directional"].Rose(getattr(W, a["Y"]), getattr(W, a.get("w", "w")), a["k"])


@op("Sequence", y=["cls", "clsS", "clsL", "clsF", "clsB", "clsD", "rag"], dist=["interval", "hamming", "arbitrary", "markov", "tran", "user", "user2"])
def _(W, a):
    if a["y"] == "rag" and a["dist"] in ("hamming", "markov", "tran"):      # (need equal lengths)
        return G["sequence"].Sequence(W.rag, dist_type="arbitrary")
    if a["dist"] in ("user", "user2"):
        return G["sequence"].Sequence(getattr(W, a["y"]), subs_mat=W.subs if a["dist"] == "user" else W.subs2, indel=1.5)
    return G["sequence"].Sequence(getattr(W, a["y"]), dist_type=a["dist"])


@op("shuffle_matrix", rand=True, X=["X", "X2"])
def _(W, a):
    return G["util"].shuffle_matrix(getattr(W, a["X"]), W.ids)


@op("get_lower", X=["X", "X2"])
def _(W, a):
    return G["util"].get_lower(getattr(W, a["X"]))


@op("fill_empty_diagonals", p=["p", "q", "p0", "p3", "q3", "p0L", "p3L"])
def _(W, a):
    return G["util"].fill_empty_diagonals(getattr(W, a["p"]))


@op("check_contiguity", leave=[0, 1, 2], w=["wi", "wi", "wj"])
def _(W, a):
    return G["components"].check_contiguity(getattr(W, a["w"]), W.nodes, W.nodes[a["leave"]])


@op("misuse", how=["no type", "lengths", "costs", "dimensions", "empty row", "empty row 2", "class", "leaver", "units"])
def _(W, a):
    """What users get wrong: the call fails with an ordinary error."""
    g, how = G, a["how"]
    if how == "no type":
        return g["sequence"].Sequence(W.cls)
    if how == "lengths":
        return g["sequence"].Sequence(W.rag, dist_type="hamming")
    if how == "costs":
        return g["sequence"].Sequence(W.cls, subs_mat=W.subs[:1, :1], indel=1)
    if how == "dimensions":
        return g["util"].fill_empty_diagonals(W.ini)
    if how == "empty row":
        return g["ergodic"].steady_state(W.p0)
    if how == "empty row 2":
        return g["ergodic"].mfpt(W.p0)
    if how == "class":
        return g["markov"].Markov(W.cls, classes=np.unique(W.cls)[1:])
    if how == "leaver":
        return g["components"].check_contiguity(W.wi, W.nodes, W.n + 1)
    return g["markov"].LISA_Markov(W.panel[1:], W.w, permutations=9)


# ------------------------------------------------------------------ methods on results
METHODS = {}


def method(cls, name, rand=False, plot=False, **choices):
    def deco(fn):
        METHODS.setdefault(cls, {})[name] = {"fn": fn, "choices": choices, "rand": rand, "plot": plot}
        return fn
    return deco


@method("Rose", "permute", rand=True, P=[1, 5, 9], alt=["two.sided", "two-sided", "positive", "negative"])
def _(W, o, a):
    alt = a["alt"] if o.k in (4, 8) else "two.sided"
    return o.permute(a["P"], alt)


@method("Rose", "plot", plot=True, attr=[None, "attr", "attr2"])
def _(W, o, a):
    return o.plot(attribute=getattr(W, a["attr"]) if a["attr"] else None)


@method("Rose", "plot_origin", plot=True)
def _(W, o, a):
    import matplotlib.pyplot as plt
    fig = plt.figure()
    o.plot_origin()
    return fig, None


@method("Rose", "plot_vectors", plot=True, arrows=[False, True])
def _(W, o, a):
    return o.plot_vectors(arrows=a["arrows"])


@method("Rose", "heatmap", plot=True, p=[0.05, 0.3, 0.9], ax=[False, True])
def _(W, o, a):
    import matplotlib.pyplot as plt
    ax = None
    if a["ax"]:
        ax = plt.subplots()[1]
    else:
        plt.figure()
    return G["plotting"].dynamic_lisa_heatmap(o, p=a["p"], ax=ax)


@method("Rose", "rose", plot=True, attr=[None, "attr", "attr2"], ax=[False, True], alpha=[None, 0.5])
def _(W, o, a):
    import matplotlib.pyplot as plt
    kw = {} if a["alpha"] is None else {"alpha": a["alpha"]}
    if a["ax"]:
        kw["ax"] = plt.figure().add_subplot(111, projection="polar")
    return G["plotting"].dynamic_lisa_rose(o, attribute=getattr(W, a["attr"]) if a["attr"] else None, **kw)


@method("Rose", "vectors", plot=True, arrows=[False, True], ax=[False, True])
def _(W, o, a):
    import matplotlib.pyplot as plt
    kw = {"ax": plt.subplots()[1]} if a["ax"] else {}
    return G["plotting"].dynamic_lisa_vectors(o, arrows=a["arrows"], **kw)


@method("Rose", "composite", plot=True, p=[0.05, 0.5])
def _(W, o, a):
    return G["plotting"].dynamic_lisa_composite(o, W.gdf, p=a["p"])


@method("LISA_Markov", "spillover", q=[1, 2, 3, 4], on=[False, True])
def _(W, o, a):
    return o.spillover(quadrant=a["q"], neighbors_on=a["on"])


COUNT = itertools.count()


def report(o, a, **kw):
    """A summary, to a file of its own if asked for; returns what is in the file."""
    if not a.get("file"):
        return o.summary(**kw)
    f = os.path.join(core.scratch(), "%d-%d-%s" % (os.getpid(), next(COUNT), a["file"]))
    try:
        o.summary(file_name=f, **kw)
        with open(f + ".tex") as h:
            return ("file", h.read())
    finally:
        if os.path.exists(f + ".tex"):
            os.unlink(f + ".tex")


@method("Spatial_Markov", "summary", file=[None, None, "report"])
def _(W, o, a):
    return report(o, a)


@method("Homogeneity_Results", "summary", title=[None, "T"], file=[None, None, "report"])
def _(W, o, a):
    return report(o, a) if a["title"] is None else report(o, a, title=a["title"])


MARKOV_LAZY = ["mfpt", "steady_state", "sojourn_time"]
LAZY = {"Markov": MARKOV_LAZY, "LISA_Markov": MARKOV_LAZY, "FullRank_Markov": MARKOV_LAZY, "GeoRank_Markov": MARKOV_LAZY,
        "Spatial_Markov": ["s", "S", "f", "F", "ht", "Q", "Q_p_value", "LR", "LR_p_value", "dof_hom", "shtest", "chi2",
                           "x2", "x2_pvalue", "x2_dof"]}
CLASS = {"Spatial_Markov_discrete": "Spatial_Markov", "homogeneity": "Homogeneity_Results"}


def methods_of(cls):
    d = dict(METHODS.get(cls, {}))
    for a in LAZY.get(cls, []):
        d["get:" + a] = {"fn": None, "choices": {}, "rand": False, "plot": False}
    return d


def pick(rng, choices):
    return {c: rng.choice(v) for c, v in choices.items()}


MANY = {"Theta": [500, 1001, 2000], "Tau_Regional": [257, 1001], "SpatialTau": [257, 1001], "permute": [500, 1001, 2000],
        "Tau_Local_Neighbor": [300], "Tau_Local_Neighborhood": [300, 1001], "LISA_Markov": [99, 999]}


def many(rng, st, n):
    """Now and then as many permutations as users really ask for."""
    name = st.get("new") or st["m"]
    if n <= 8 and name in MANY and rng.random() < 0.02:
        st["a"]["P"] = rng.choice(MANY[name])
    return st


# what is drawn when a session does not say: things with a life of their own more often
OFTEN = ["Rose"] * 4 + ["Spatial_Markov"] * 3 + ["LISA_Markov"] * 2 + ["Spatial_Markov_discrete", "homogeneity", "Markov", "Theta"]


def gen_name(rng):
    """An analysis, those with many variants more often."""
    names = sorted(OPS)
    return rng.choices(names, [sum(len(v) for v in OPS[x]["choices"].values()) for x in names])[0]


def gen_new(rng, n, names=None, weights=None):
    name = rng.choice(names or sorted(OPS) + OFTEN)
    return many(rng, {"new": name, "a": pick(rng, OPS[name]["choices"]), "rng": R.gen(rng, n)}, n)


def gen_on(rng, n, i, cls, names=None):
    ms = methods_of(cls)
    names = [m for m in sorted(ms) if not names or m in names]
    if not names:
        return None
    m = rng.choice(names)
    if "permute" in names and rng.random() < 0.25:
        m = "permute"
    return many(rng, {"on": i, "m": m, "a": pick(rng, ms[m]["choices"]), "rng": R.gen(rng, n)}, n)


def uses_rng(step, cls=None):
    if "mut" in step:
        return False
    d = OPS[step["new"]] if "new" in step else methods_of(cls)[step["m"]]
    r = d["rand"]
    return r(step["a"]) if callable(r) else r


def plots(step, cls=None):
    d = OPS[step["new"]] if "new" in step else methods_of(cls).get(step["m"], {})
    return bool(d.get("plot"))


def result_class(name):
    return CLASS.get(name, name)


# ------------------------------------------------------------------ running
class Raised:
    def __init__(self, e):
        self.kind, self.msg = type(e).__name__, str(e)[:200]


def call(W, step, objs):
    """One step, without protection; returns the raw result."""
    if "mut" in step:
        W.mutate(step["mut"], step["v"], step.get("fresh", False))
        return None
    if "new" in step:
        return OPS[step["new"]]["fn"](W, step["a"])
    o = objs[step["on"]]
    if step["m"].startswith("get:"):
        return getattr(o, step["m"][4:])
    cls = type(o).__name__
    return METHODS[cls][step["m"]]["fn"](W, o, step["a"])


def warn_state():
    # (esda's Moran_Local puts a filter for SparseEfficiencyWarning in front: its own doing)
    return ([repr(f) for f in warnings.filters if "SparseEfficiency" not in repr(f)], repr(warnings.showwarning), id(sys.stdout))


WARN = {}       # the filters of Python's warnings before and after the last captured operation


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(buf):
        warnings.simplefilter("ignore")
        WARN["before"] = warn_state()
        yield buf
        WARN["after"] = warn_state()


def step_result(W, step, objs, apply_rng=True):
    """Runs a step on its stream; returns (raw result or Raised, printed text)."""
    if apply_rng and "rng" in step:
        R.apply(step["rng"])
    with captured() as buf:
        try:
            res = call(W, step, objs)
        except Violation:
            raise
        except Exception as e:
            res = Raised(e)
    return res, buf.getvalue()


def lazy_values(o, names=None):
    out = []
    for a in (names if names is not None else LAZY.get(type(o).__name__, [])):
        with captured() as buf:
            try:
                v = O.canon(getattr(o, a))
            except Exception as e:
                v = ("raised", type(e).__name__, str(e)[:200])
        out.append((a, v))
    return tuple(out)


def snap(res, lazy=True):
    """Canonical form of a result; lazy attributes are evaluated too."""
    if isinstance(res, Raised):
        return ("raised", res.kind, res.msg)
    fig = figure_of(res)
    if fig is not None:
        return O.figure(fig)
    if type(res).__module__.startswith("giddy"):
        out = ("obj", type(res).__name__, O.public(res, skip=("w",) if True else ()))
        return out + ((lazy_values(res),) if lazy else ())
    return O.canon(res)


def figure_of(res):
    if isinstance(res, tuple) and res and type(res[0]).__name__ == "Figure":
        return res[0]
    return None


def close_all():
    plt = sys.modules.get("matplotlib.pyplot")
    if plt is not None and plt.get_fignums():
        plt.close("all")


# ------------------------------------------------------------------ shrinking sessions
def shrink_session(s, key="steps", keep_last=False):
    steps = s[key]
    n = len(steps)
    # drop a step together with the method calls that depend on it
    for i in range(n - 1, -1, -1):
        if keep_last and i == n - 1:
            continue
        drop = {i} | {j for j in range(n) if steps[j].get("on") == i}
        if keep_last and n - 1 in drop:
            continue
        left = [j for j in range(n) if j not in drop]
        if not left:
            continue
        ren = {j: c for c, j in enumerate(left)}
        yield dict(s, **{key: [dict(steps[j], on=ren[steps[j]["on"]]) if "on" in steps[j] else steps[j] for j in left]})
    for i, st in enumerate(steps):
        put = lambda d: dict(s, **{key: steps[:i] + [d] + steps[i + 1:]})
        if "rng" in st:
            for r in R.shrink(st["rng"]):
                yield put(dict(st, rng=r))
        ch = OPS[st["new"]]["choices"] if "new" in st else None
        if ch:
            for a, vs in ch.items():
                if st["a"].get(a) != vs[0]:
                    yield put(dict(st, a=dict(st["a"], **{a: vs[0]})))
