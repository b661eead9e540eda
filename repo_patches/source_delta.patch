From 33a2e3af8bc03d05a6feee23fb260a143317c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 01/22] fix: keep Rose.Y and Rose.wY at the observed data after
 permute

Every permutation overwrote Y and wY, so plots and tables drawn from a Rose
after permute showed the last shuffled map instead of the data.
---
 giddy/directional.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 0a76da8..8646916 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -214,6 +214,7 @@ class Rose:
         self.sw = 2 * np.pi / self.k
         self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
         observed = self._calc(Y, w, k)
+        self.wY = observed["lag"]
         self.theta = observed["theta"]
         self.bins = observed["bins"]
         self.counts = observed["counts"]
@@ -221,6 +222,9 @@ class Rose:
         self.lag = observed["lag"]
         self._dx = observed["dx"]
         self._dy = observed["dy"]
+        # arrangement that the next call of permute starts shuffling from; kept
+        # apart from the observed data in Y and wY
+        self._rY = Y
 
     def permute(self, permutations=99, alternative="two.sided"):
         """
@@ -239,7 +243,7 @@ class Rose:
             that the focal unit and its lag move in opposite directions over
             the interval.
         """
-        rY = self.Y.copy()
+        rY = self._rY.copy()
         idxs = np.arange(len(rY))
         counts = np.zeros((permutations, len(self.counts)))
         for m in range(permutations):
@@ -298,13 +302,13 @@ class Rose:
             self.p = P
         else:
             print(f"Bad option for alternative: {alternative}")
+        if permutations:
+            self._rY = rY[idxs, :]
 
     def _calc(self, Y, w, k):
         wY = weights.lag_spatial(w, Y)
         dx = Y[:, -1] - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
-        self.wY = wY
-        self.Y = Y
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
         neg = theta < 0.0
-- 
2.43.0


From d8bac07da0d822440d08435cd2e316ea201bc9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 02/22] fix: do not change the transformation of the caller's
 weights

SpatialTau, Tau_Local_Neighbor, Tau_Local_Neighborhood, LISA_Markov and the
dynamic LISA plots left the weights they were given binary or row-standardized,
so any later analysis with the same weights silently gave other results. They
now work on a shallow copy.
---
 giddy/markov.py   | 10 +++++++---
 giddy/plotting.py |  6 ++++--
 giddy/rank.py     |  8 +++++---
 giddy/util.py     | 27 +++++++++++++++++++++++++++
 4 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 858e550..51fe1ce 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -29,7 +29,7 @@ from scipy.stats import rankdata
 
 from .components import Graph
 from .ergodic import mfpt, steady_state
-from .util import fill_empty_diagonals
+from .util import _transform_weights, fill_empty_diagonals
 
 # TT predefine LISA transitions
 # TT[i,j] is the transition type from i to j
@@ -1378,7 +1378,10 @@ class LISA_Markov(Markov):
         y = y.transpose()
         pml = Moran_Local
         gq = geoda_quads
-        ml = [pml(yi, w, permutations=permutations, geoda_quads=gq) for yi in y]
+        # work on row-standardized copies so that the caller's weights are not
+        # transformed; Moran_Local clears the diagonal of the copy it is given
+        wr = _transform_weights(w, "r")
+        ml = [pml(yi, wr, permutations=permutations, geoda_quads=gq) for yi in y]
         q = np.array([mli.q for mli in ml]).transpose()
         classes = np.arange(1, 5)  # no guarantee all 4 quadrants are visited
         Markov.__init__(self, q, classes, summary=False)
@@ -1413,7 +1416,8 @@ class LISA_Markov(Markov):
 
         ybar = y.mean(axis=0)
         r = y / ybar
-        ylag = np.array([weights.lag_spatial(w, yt) for yt in y])
+        wr = _transform_weights(wr, "r")
+        ylag = np.array([weights.lag_spatial(wr, yt) for yt in y])
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
diff --git a/giddy/plotting.py b/giddy/plotting.py
index e06bfc5..3a10398 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -7,6 +7,7 @@ from esda.moran import Moran_Local
 from packaging.version import Version
 
 from .directional import Rose
+from .util import _transform_weights
 
 # from ._viz_esda_mpl import lisa_cluster
 # from ._viz_utils import moran_hot_cold_spots
@@ -61,10 +62,11 @@ def _moran_loc_from_rose_calc(rose):
     """
     Calculate esda.moran.Moran_Local values from giddy.rose object
     """
+    w = _transform_weights(rose.w, "r")
     old_state = np.random.get_state()
-    moran_locy = Moran_Local(rose.Y[:, 0], rose.w)
+    moran_locy = Moran_Local(rose.Y[:, 0], w)
     np.random.set_state(old_state)
-    moran_locx = Moran_Local(rose.Y[:, 1], rose.w)
+    moran_locx = Moran_Local(rose.Y[:, 1], w)
     np.random.set_state(old_state)
     return moran_locy, moran_locx
 
diff --git a/giddy/rank.py b/giddy/rank.py
index 2141baf..69c9c33 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -19,6 +19,8 @@ from libpysal import weights
 from scipy.special import erfc
 from scipy.stats.mstats import rankdata
 
+from .util import _transform_weights
+
 
 class Theta:
     """
@@ -351,7 +353,7 @@ class SpatialTau:
     """
 
     def __init__(self, x, y, w, permutations=0):
-        w.transform = "b"
+        w = _transform_weights(w, "b")
         self.n = len(x)
         res = Tau(x, y)
         self.tau = res.tau
@@ -598,7 +600,7 @@ class Tau_Local_Neighbor:
         y = np.asarray(y)
         self.n = len(x)
 
-        w.transform = "b"
+        w = _transform_weights(w, "b")
         self.tau_ln, self.tau_ln_weights = self._calc(x, y, w)
 
         concor_sign = np.ones(self.n)
@@ -755,7 +757,7 @@ class Tau_Local_Neighborhood:
         self.S = res.S
         self.tau_local = res.tau_local
 
-        w.transform = "b"
+        w = _transform_weights(w, "b")
         tau_lnhood = np.zeros(self.n)
         for i in range(self.n):
             neighbors_i = [i]
diff --git a/giddy/util.py b/giddy/util.py
index 40b3e57..c9b22e8 100644
--- a/giddy/util.py
+++ b/giddy/util.py
@@ -7,6 +7,7 @@ __all__ = ["shuffle_matrix", "get_lower", "fill_empty_diagonals"]
 import copy
 
 import numpy as np
+from libpysal.weights import W
 
 
 def shuffle_matrix(X, ids):
@@ -43,6 +44,32 @@ def shuffle_matrix(X, ids):
     return X[ids, :][:, ids]
 
 
+def _transform_weights(w, transform):
+    """
+    Transformed spatial weights that leave the weights passed in as they were.
+
+    Parameters
+    ----------
+    w         : W
+                spatial weights object.
+    transform : str
+                transformation, as accepted by the transform property of W.
+
+    Returns
+    -------
+    w         : W
+                shallow copy of w with the requested transformation. Weights that
+                are not a W are returned unchanged.
+
+    """
+    if not isinstance(w, W):
+        return w
+    w = copy.copy(w)
+    w.transformations = dict(w.transformations)
+    w.transform = transform
+    return w
+
+
 def get_lower(matrix):
     """
     Flattens the lower part of an n x n matrix into an n*(n-1)/2 x 1 vector.
-- 
2.43.0


From 5eab254ab9dc530ed0ba833e93727c13f805d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 03/22] fix: Theta no longer adds an attribute to the numpy
 module

---
 giddy/rank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 69c9c33..f137703 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -105,8 +105,8 @@ class Theta:
         self.theta = self._calc(regime)
         self.permutations = permutations
         if permutations:
-            np.perm = np.random.permutation
-            sim = np.array([self._calc(np.perm(regime)) for i in range(permutations)])
+            nrp = np.random.permutation
+            sim = np.array([self._calc(nrp(regime)) for i in range(permutations)])
             self.theta.shape = (1, len(self.theta))
             sim = np.concatenate((self.theta, sim))
             self.sim = sim
-- 
2.43.0


From bc1abe1e3226bad9ccac940eade70e48c94c528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 04/22] fix: restore matplotlib's rcParams when drawing a rose
 diagram fails

An error while drawing (for example attribute together with c or color) left
the style of the rose diagram active for every later figure.
---
 giddy/plotting.py | 78 ++++++++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 48 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 3a10398..86bf167 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -25,6 +25,9 @@ __author__ = "Stefanie Lumnitz <stefanie.lumitz@gmail.com>"
 
 ESDA_GE_270 = Version(esda.__version__) >= Version("2.7.0")
 
+# style of the axes that hold a rose diagram
+ROSE_STYLE = {"grid.color": "w", "axes.edgecolor": "w", "axes.facecolor": "#E5E5E5"}
+
 
 def _moran_hot_cold_spots(moran_loc, p=0.05):
     sig = 1 * (moran_loc.p_sim < p)
@@ -268,46 +271,36 @@ def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     >>> plt.show()
 
     """
-    # save_old default values
-    old_gridcolor = mpl.rcParams["grid.color"]
-    old_facecolor = mpl.rcParams["axes.facecolor"]
-    old_edgecolor = mpl.rcParams["axes.edgecolor"]
-    # define plotting style
-    mpl.rcParams["grid.color"] = "w"
-    mpl.rcParams["axes.edgecolor"] = "w"
-    mpl.rcParams["axes.facecolor"] = "#E5E5E5"
     alpha = kwargs.pop("alpha", 0.9)
     cmap = kwargs.pop("cmap", "YlGnBu")
 
-    if ax is None:
-        fig = plt.figure()
-        ax = fig.add_subplot(111, projection="polar")
-        can_insert_colorbar = True
-    else:
-        fig = ax.get_figure()
-        can_insert_colorbar = False
-
-    ax.set_rlabel_position(315)
-
-    if attribute is None:
-        c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
-    else:
-        if "c" in kwargs or "color" in kwargs:
-            raise ValueError(
-                "c and color are not valid keywords here; "
-                "attribute is used for coloring"
+    # the plotting style applies to this figure only
+    with mpl.rc_context(ROSE_STYLE):
+        if ax is None:
+            fig = plt.figure()
+            ax = fig.add_subplot(111, projection="polar")
+            can_insert_colorbar = True
+        else:
+            fig = ax.get_figure()
+            can_insert_colorbar = False
+
+        ax.set_rlabel_position(315)
+
+        if attribute is None:
+            c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
+        else:
+            if "c" in kwargs or "color" in kwargs:
+                raise ValueError(
+                    "c and color are not valid keywords here; "
+                    "attribute is used for coloring"
+                )
+
+            c = ax.scatter(
+                rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
             )
+            if can_insert_colorbar:
+                fig.colorbar(c)
 
-        c = ax.scatter(
-            rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
-        )
-        if can_insert_colorbar:
-            fig.colorbar(c)
-
-    # reset style to old default values
-    mpl.rcParams["grid.color"] = old_gridcolor
-    mpl.rcParams["axes.facecolor"] = old_facecolor
-    mpl.rcParams["axes.edgecolor"] = old_edgecolor
     return fig, ax
 
 
@@ -551,20 +544,9 @@ def dynamic_lisa_composite(rose, gdf, p=0.05, figsize=(13, 10)):
     axs = []
     axs.append(plt.subplot(221))
     axs.append(plt.subplot(222))
-    # save_old default values
-    old_gridcolor = mpl.rcParams["grid.color"]
-    old_facecolor = mpl.rcParams["axes.facecolor"]
-    old_edgecolor = mpl.rcParams["axes.edgecolor"]
-    # define plotting style
-    mpl.rcParams["grid.color"] = "w"
-    mpl.rcParams["axes.edgecolor"] = "w"
-    mpl.rcParams["axes.facecolor"] = "#E5E5E5"
     # define axs[2]
-    axs.append(plt.subplot(223, projection="polar"))
-    # reset style to old default values
-    mpl.rcParams["grid.color"] = old_gridcolor
-    mpl.rcParams["axes.facecolor"] = old_facecolor
-    mpl.rcParams["axes.edgecolor"] = old_edgecolor
+    with mpl.rc_context(ROSE_STYLE):
+        axs.append(plt.subplot(223, projection="polar"))
     # define axs[3]
     axs.append(plt.subplot(224))
 
-- 
2.43.0


From 8f9afcfa1e2394e839dc73a0431bdb791ad47ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 05/22] fix: keep Spatial_Markov.lclass_ids at the observed
 spatial lags

With permutations, lclass_ids held the lag classes of the last permutation.
---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 51fe1ce..ecd6492 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -837,6 +837,7 @@ class Spatial_Markov:
         self.T, self.P = self._calc(y, w, fill_empty_classes=fill_empty_classes)
 
         if permutations:
+            observed = self.lclass_ids, self.lag_cutoffs, self.m
             nrp = np.random.permutation
             counter = 0
             x2_realizations = np.zeros((permutations, 1))
@@ -847,6 +848,7 @@ class Spatial_Markov:
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
                     counter += 1
+            self.lclass_ids, self.lag_cutoffs, self.m = observed
             self.x2_rpvalue = (counter + 1.0) / (permutations + 1.0)
             self.x2_realizations = x2_realizations
 
-- 
2.43.0


From 3ba7734a9d425cfff14e2bb12b92fc2e9afc422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 06/22] fix: sum Spatial_Markov's permuted statistic over the
 spatial lag classes

The simulated statistic summed over k income classes instead of the m lag
classes: an IndexError for k > m and a p-value that is too small for k < m.
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index ecd6492..2f3ffaa 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -843,7 +843,7 @@ class Spatial_Markov:
             x2_realizations = np.zeros((permutations, 1))
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
-                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.k)]
+                x2 = [chi2(T[i], self.transitions)[0] for i in range(len(T))]
                 x2s = sum(x2)
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
-- 
2.43.0


From 34e70038c05d86c4cd95a776431268d52c8d32ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 07/22] fix: name the m spatial lag classes in
 Spatial_Markov.summary

The names were generated for k classes: an IndexError for k < m and names of
classes that do not exist for k > m.
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 2f3ffaa..27e8927 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1045,7 +1045,7 @@ class Spatial_Markov:
         """
 
         class_names = ["C%d" % i for i in range(self.k)]
-        regime_names = ["LAG%d" % i for i in range(self.k)]
+        regime_names = ["LAG%d" % i for i in range(self.m)]
         ht = homogeneity(self.T, class_names=class_names, regime_names=regime_names)
         title = "Spatial Markov Test"
         if self.variable_name:
-- 
2.43.0


From 6f803a056b479a76ed392d2fec5f25d7be6a7517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 08/22] fix: permute discrete data in Spatial_Markov's
 permutation test

For discrete=True the spatial lags were computed from the observed map in every
permutation, so the test never rejected.
---
 giddy/markov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 27e8927..15586f8 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -958,7 +958,8 @@ class Spatial_Markov:
 
         """
         if self.discrete:
-            self.lclass_ids = weights.lag_categorical(w, self.class_ids, ties="tryself")
+            class_ids = np.searchsorted(self.classes, y)
+            self.lclass_ids = weights.lag_categorical(w, class_ids, ties="tryself")
         else:
             ly = weights.lag_spatial(w, y)
             self.lclass_ids, self.lag_cutoffs, self.m = self._maybe_classify(
-- 
2.43.0


From 083b6280d7c68093059232944ad10177786ddb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 09/22] fix: number the components of LISA_Markov.spillover
 deterministically

With string ids the numbering followed the iteration order of a set and changed
from one Python process to the next.
---
 giddy/markov.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 15586f8..af2fe69 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1517,6 +1517,9 @@ class LISA_Markov(Markov):
                                 g1.add_edge(neighbor, nn, 1.0)
                 components1 = g1.connected_components(op=gt)
                 components1 = [list(c.nodes) for c in components1]
+                # ids of components follow the order of the units in w, not the
+                # (for strings, random) order of a set
+                components1.sort(key=lambda c: min(self.w.id2i[i] for i in c))
                 g2 = Graph(undirected=True)
                 for i in s2:
                     for neighbor in neighbors[i2id[i]]:
-- 
2.43.0


From f0657fe1348e42a133e3c22bd31e158382c5caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 10/22] fix: label the rows and columns of the dynamic LISA
 heatmap correctly

Rows and columns are ordered by quadrant code (1=HH, 2=LH, 3=LL, 4=HL); the
labels were in another order, so LL was shown as LH and so on.
---
 giddy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 86bf167..e12a94b 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -172,8 +172,8 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     square = kwargs.pop("square", True)
 
     # set name for tick labels
-    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "HL", "LH", "LL"])
-    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "HL", "LH", "LL"])
+    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "LH", "LL", "HL"])
+    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "LH", "LL", "HL"])
 
     ax = sns.heatmap(
         heatmap_data,
-- 
2.43.0


From 52606e4d7a32eb8150f17aa1da7ca067ca094243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 11/22] fix: give Rose exactly k sectors for every k

np.arange rounds to k + 1 sectors for some k (for example 12 and 30).
---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 8646916..2cddf74 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -212,7 +212,7 @@ class Rose:
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
-        self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
+        self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
         observed = self._calc(Y, w, k)
         self.wY = observed["lag"]
         self.theta = observed["theta"]
-- 
2.43.0


From c0bbf43cc0d47d92ea2b8c741d7b196acb9dd9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 12/22] fix: fill in the last period of LISA_Markov.spillover's
 components

The column of the last period was always 0.
---
 giddy/markov.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index af2fe69..efd5a29 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1529,6 +1529,7 @@ class LISA_Markov(Markov):
                                 g2.add_edge(neighbor, nn, 1.0)
                 components2 = g2.connected_components(op=gt)
                 components2 = [list(c.nodes) for c in components2]
+                components2.sort(key=lambda c: min(self.w.id2i[i] for i in c))
                 c2 = []
                 c1 = []
                 for c in components2:
@@ -1554,6 +1555,10 @@ class LISA_Markov(Markov):
                     for i in component:
                         ii = self.w.id2i[i]
                         components[ii, t] = c + 1
+                for c, component in enumerate(components2):
+                    for i in component:
+                        ii = self.w.id2i[i]
+                        components[ii, t + 1] = c + 1
             results = {}
             results["components"] = components
             results["spill_over"] = spill_over
-- 
2.43.0


From f0c7600ac4044bfd8210b6eb92f190321f7d67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 13/22] fix: accept the documented alternative 'two-sided' in
 Rose.permute

It was rejected with a message, leaving p unset or at its previous value.
---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 2cddf74..3a60796 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -278,7 +278,7 @@ class Rose:
         # depending on the problem at hand.
 
         alt = alternative.upper()
-        if alt == "TWO.SIDED":
+        if alt in ("TWO.SIDED", "TWO-SIDED"):
             P = (self.larger_perm + 1) / (permutations + 1.0)
             mask = P < 0.5
             self.p = mask * 2 * P + (1 - mask) * 2 * (1 - P)
-- 
2.43.0


From afb2ef52f8e365ca7ca772375ad9238bd672c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 14/22] fix: keep x's type when permuting in Tau_Local_Neighbor

For integer y, the permuted values of a float x were truncated.
---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index f137703..06d8160 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -613,7 +613,7 @@ class Tau_Local_Neighbor:
             for i in range(self.n):
                 obs_i = self.tau_ln[i]  # observed value i LIMA statistic
                 yr = np.zeros_like(y)
-                xr = np.zeros_like(y)
+                xr = np.zeros_like(x)
                 rids = np.arange(self.n)
                 rids = np.delete(rids, i)
                 for j in range(permutations):
-- 
2.43.0


From 4abcf5e8977f4711d2c826e417c09e6d8e029b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 15/22] fix: shuffle_matrix no longer reorders the ids of its
 caller

---
 giddy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/util.py b/giddy/util.py
index c9b22e8..b892a04 100644
--- a/giddy/util.py
+++ b/giddy/util.py
@@ -40,7 +40,7 @@ def shuffle_matrix(X, ids):
            [ 6,  4,  7,  5]])
 
     """
-    np.random.shuffle(ids)
+    ids = np.random.permutation(ids)
     return X[ids, :][:, ids]
 
 
-- 
2.43.0


From 49d7eabcc3e4ba556d872ec808d042bacb3dc951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 16/22] fix: find the components of large maps in
 LISA_Markov.spillover

The recursive search exceeded Python's recursion limit for a cluster of about
a thousand units.
---
 giddy/components.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index 065f45f..0d246e5 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -149,14 +149,10 @@ class Graph:
     def dfs(self, v, visited, threshold, op=lt, first=None):
         aux = [v]
         visited.add(v)
-        if first is None:
-            first = v
-        for i in (
-            n
-            for n, w in list(self.edges.get(v, {}).items())
-            if op(w, threshold) and n not in visited
-        ):
-            x, y = self.dfs(i, visited, threshold, op, first)
-            aux.extend(x)
-            visited = visited.union(y)
+        # aux grows while it is walked: no recursion, however large the component
+        for u in aux:
+            for n, w in list(self.edges.get(u, {}).items()):
+                if op(w, threshold) and n not in visited:
+                    visited.add(n)
+                    aux.append(n)
         return aux, visited
-- 
2.43.0


From 113d168470ffcd996cdaba5cc7e2ea9845c85970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 17/22] fix: Spatial_Markov with empty classes has transitions
 of all k classes

The a-spatial chain dropped classes without observations, so x2 and the
permutation test failed on matrices of different shapes.
---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index efd5a29..f1e4c10 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -830,7 +830,10 @@ class Spatial_Markov:
             self.classes = np.arange(self.k)
 
         classic = Markov(
-            self.class_ids, fill_empty_classes=fill_empty_classes, summary=False
+            self.class_ids,
+            classes=np.arange(self.k),  # classes may be empty
+            fill_empty_classes=fill_empty_classes,
+            summary=False,
         )
         self.p = classic.p
         self.transitions = classic.transitions
-- 
2.43.0


From 4150c494ff063d4b282bed841967f6f04542e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 18/22] fix: LISA_Markov accepts panels whose values or lags
 never cross the mean

The independence test failed when only one of the two classes occurs.
---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index f1e4c10..d296b24 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1427,8 +1427,9 @@ class LISA_Markov(Markov):
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
-        markov_y = Markov(rc, summary=False)
-        markov_ylag = Markov(rlagc, summary=False)
+        below = np.array([False, True])  # one of them may not be observed
+        markov_y = Markov(rc, below, summary=False)
+        markov_ylag = Markov(rlagc, below, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
-- 
2.43.0


From eb9ae77885db79cc105a0e12b04a4136e07ff180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 19/22] fix: homogeneity of integer transition matrices is not
 truncated

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index d296b24..d23f969 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1798,7 +1798,7 @@ class Homogeneity_Results:
 
     def _homogeneity(self, transition_matrices):
         # form null transition probability matrix
-        M = np.array(transition_matrices)
+        M = np.array(transition_matrices, dtype=float)
         m, r, k = M.shape
         self.k = k
         B = np.zeros((r, m))
-- 
2.43.0


From 05972850fd2f6f04ff270e911a73a94f75e4a13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:23 +0000
Subject: [PATCH 20/22] fix: homogeneity report accepts regime names that are
 not strings

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index d23f969..486f95c 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1859,7 +1859,7 @@ class Homogeneity_Results:
     def summary(self, file_name=None, title="Markov Homogeneity Test"):
         regime_names = ["%d" % i for i in range(self.m)]
         if self.regime_names:
-            regime_names = self.regime_names
+            regime_names = [str(regime) for regime in self.regime_names]
         cols = ["P(%s)" % str(regime) for regime in regime_names]
         if not self.class_names:
             self.class_names = list(range(self.k))
-- 
2.43.0


From b262c125685d084a7cd6e27ad93d89203134633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:14 +0000
Subject: [PATCH 21/22] fix: do not confuse different sequences of twelve or
 more classes

Sequence looked up distinct sequences by their class codes written one after
the other, so that (1, 11) and (11, 1) were taken for one sequence and the
second one's distance raised KeyError. Separate the codes.
---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 045f6cd..50887bb 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -336,7 +336,7 @@ class Sequence:
         """
         y_str = []
         for i in y_int:
-            y_str.append("".join(list(map(str, i))))
+            y_str.append(",".join(list(map(str, i))))
 
         moves_str, unique_indices = np.unique(y_str, axis=0, return_index=True)
         moves_int = y_int[unique_indices]
-- 
2.43.0


From 6ccb90dc0cac13478a6bb3ce0477728004079fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:53 +0000
Subject: [PATCH 22/22] fix: homogeneity results do not share their default
 lists of names

The lists used as default arguments became attributes of every result, so
that names put into them for one result turned up in all others.
---
 giddy/markov.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 486f95c..c3cc8bc 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1718,8 +1718,8 @@ def prais(pmat):
 
 def homogeneity(
     transition_matrices,
-    regime_names=[],
-    class_names=[],
+    regime_names=None,
+    class_names=None,
     title="Markov Homogeneity Test",
 ):
     """
@@ -1787,13 +1787,13 @@ class Homogeneity_Results:
     def __init__(
         self,
         transition_matrices,
-        regime_names=[],
-        class_names=[],
+        regime_names=None,
+        class_names=None,
         title="Markov Homogeneity Test",
     ):
         self._homogeneity(transition_matrices)
-        self.regime_names = regime_names
-        self.class_names = class_names
+        self.regime_names = [] if regime_names is None else regime_names
+        self.class_names = [] if class_names is None else class_names
         self.title = title
 
     def _homogeneity(self, transition_matrices):
-- 
2.43.0

