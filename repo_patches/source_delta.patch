From 8b6bc52cac4886991f472cce737bd81c9127538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:50 +0000
Subject: [PATCH 01/37] fix: Rose.permute no longer replaces Y and wY with
 permuted data

---
 giddy/directional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 0a76da8..4451807 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -214,6 +214,8 @@ class Rose:
         self.sw = 2 * np.pi / self.k
         self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
         observed = self._calc(Y, w, k)
+        self.wY = observed["lag"]
+        self._idxs = np.arange(len(Y))
         self.theta = observed["theta"]
         self.bins = observed["bins"]
         self.counts = observed["counts"]
@@ -240,7 +242,7 @@ class Rose:
             the interval.
         """
         rY = self.Y.copy()
-        idxs = np.arange(len(rY))
+        idxs = self._idxs
         counts = np.zeros((permutations, len(self.counts)))
         for m in range(permutations):
             np.random.shuffle(idxs)
@@ -303,8 +305,6 @@ class Rose:
         wY = weights.lag_spatial(w, Y)
         dx = Y[:, -1] - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
-        self.wY = wY
-        self.Y = Y
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
         neg = theta < 0.0
-- 
2.43.0


From e53449a44aa76a78b01fe26fc76380022fa43e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:37 +0000
Subject: [PATCH 02/37] fix: Rose sector edges are exactly k + 1 equal steps of
 the circle

---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 4451807..fff9d42 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -212,7 +212,7 @@ class Rose:
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
-        self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
+        self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
         observed = self._calc(Y, w, k)
         self.wY = observed["lag"]
         self._idxs = np.arange(len(Y))
-- 
2.43.0


From 77334a3c27d5a278ff557f1d426602683ce6387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 03/37] fix: Rose.permute accepts the documented 'two-sided'
 and rejects unknown alternatives

---
 giddy/directional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index fff9d42..e2e4dac 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -241,6 +241,9 @@ class Rose:
             that the focal unit and its lag move in opposite directions over
             the interval.
         """
+        alt = alternative.upper().replace("-", ".")
+        if alt not in ("TWO.SIDED", "POSITIVE", "NEGATIVE"):
+            raise ValueError(f"Bad option for alternative: {alternative}")
         rY = self.Y.copy()
         idxs = self._idxs
         counts = np.zeros((permutations, len(self.counts)))
@@ -275,7 +278,6 @@ class Rose:
         # since a priori there could # be different alternatives for each bin
         # depending on the problem at hand.
 
-        alt = alternative.upper()
         if alt == "TWO.SIDED":
             P = (self.larger_perm + 1) / (permutations + 1.0)
             mask = P < 0.5
@@ -298,8 +300,6 @@ class Rose:
             S = (self.smaller_perm + 1) / (permutations + 1.0)
             P = NEG * L + (1 - NEG) * S
             self.p = P
-        else:
-            print(f"Bad option for alternative: {alternative}")
 
     def _calc(self, Y, w, k):
         wY = weights.lag_spatial(w, Y)
-- 
2.43.0


From 113fec047f5ceafc72fcd57fcfda6ed6c7360cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 04/37] fix: markov_mobility rejects unknown measures

---
 giddy/mobility.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/giddy/mobility.py b/giddy/mobility.py
index 893dac6..d826fa3 100644
--- a/giddy/mobility.py
+++ b/giddy/mobility.py
@@ -133,4 +133,7 @@ def markov_mobility(p, measure="P", ini=None):
                 mobi = mobi + ini[i] * p[i, j] * abs(i - j)
         mobi = mobi / (k - 1)
 
+    else:
+        raise ValueError(f"Unknown mobility measure: {measure}")
+
     return mobi
-- 
2.43.0


From ba3cef717664f05d0b8af092bc19809e1fd376c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 05/37] fix: label the dynamic LISA heatmap rows and columns
 with their own quadrants

---
 giddy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index e06bfc5..5da44c5 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -167,8 +167,8 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     square = kwargs.pop("square", True)
 
     # set name for tick labels
-    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "HL", "LH", "LL"])
-    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "HL", "LH", "LL"])
+    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "LH", "LL", "HL"])
+    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "LH", "LL", "HL"])
 
     ax = sns.heatmap(
         heatmap_data,
-- 
2.43.0


From b8f595995a956f202bdda2a1fd0b3cc2dc86a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:30 +0000
Subject: [PATCH 06/37] fix: plotting helpers leave rcParams untouched when
 they raise

---
 giddy/plotting.py | 78 ++++++++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 48 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 5da44c5..d3ec6b3 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -266,46 +266,37 @@ def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     >>> plt.show()
 
     """
-    # save_old default values
-    old_gridcolor = mpl.rcParams["grid.color"]
-    old_facecolor = mpl.rcParams["axes.facecolor"]
-    old_edgecolor = mpl.rcParams["axes.edgecolor"]
-    # define plotting style
-    mpl.rcParams["grid.color"] = "w"
-    mpl.rcParams["axes.edgecolor"] = "w"
-    mpl.rcParams["axes.facecolor"] = "#E5E5E5"
+    # plotting style, in force only while the polar axes are drawn
+    style = {"grid.color": "w", "axes.edgecolor": "w", "axes.facecolor": "#E5E5E5"}
     alpha = kwargs.pop("alpha", 0.9)
     cmap = kwargs.pop("cmap", "YlGnBu")
 
-    if ax is None:
-        fig = plt.figure()
-        ax = fig.add_subplot(111, projection="polar")
-        can_insert_colorbar = True
-    else:
-        fig = ax.get_figure()
-        can_insert_colorbar = False
-
-    ax.set_rlabel_position(315)
-
-    if attribute is None:
-        c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
-    else:
-        if "c" in kwargs or "color" in kwargs:
-            raise ValueError(
-                "c and color are not valid keywords here; "
-                "attribute is used for coloring"
+    with mpl.rc_context(style):
+        if ax is None:
+            fig = plt.figure()
+            ax = fig.add_subplot(111, projection="polar")
+            can_insert_colorbar = True
+        else:
+            fig = ax.get_figure()
+            can_insert_colorbar = False
+
+        ax.set_rlabel_position(315)
+
+        if attribute is None:
+            c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
+        else:
+            if "c" in kwargs or "color" in kwargs:
+                raise ValueError(
+                    "c and color are not valid keywords here; "
+                    "attribute is used for coloring"
+                )
+
+            c = ax.scatter(
+                rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
             )
+            if can_insert_colorbar:
+                fig.colorbar(c)
 
-        c = ax.scatter(
-            rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
-        )
-        if can_insert_colorbar:
-            fig.colorbar(c)
-
-    # reset style to old default values
-    mpl.rcParams["grid.color"] = old_gridcolor
-    mpl.rcParams["axes.facecolor"] = old_facecolor
-    mpl.rcParams["axes.edgecolor"] = old_edgecolor
     return fig, ax
 
 
@@ -549,20 +540,11 @@ def dynamic_lisa_composite(rose, gdf, p=0.05, figsize=(13, 10)):
     axs = []
     axs.append(plt.subplot(221))
     axs.append(plt.subplot(222))
-    # save_old default values
-    old_gridcolor = mpl.rcParams["grid.color"]
-    old_facecolor = mpl.rcParams["axes.facecolor"]
-    old_edgecolor = mpl.rcParams["axes.edgecolor"]
-    # define plotting style
-    mpl.rcParams["grid.color"] = "w"
-    mpl.rcParams["axes.edgecolor"] = "w"
-    mpl.rcParams["axes.facecolor"] = "#E5E5E5"
+    # plotting style, in force only while the polar axes are drawn
+    style = {"grid.color": "w", "axes.edgecolor": "w", "axes.facecolor": "#E5E5E5"}
     # define axs[2]
-    axs.append(plt.subplot(223, projection="polar"))
-    # reset style to old default values
-    mpl.rcParams["grid.color"] = old_gridcolor
-    mpl.rcParams["axes.facecolor"] = old_facecolor
-    mpl.rcParams["axes.edgecolor"] = old_edgecolor
+    with mpl.rc_context(style):
+        axs.append(plt.subplot(223, projection="polar"))
     # define axs[3]
     axs.append(plt.subplot(224))
 
-- 
2.43.0


From a24b2fd51d4ab6c04a92839f247ccb1db2d13d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:34 +0000
Subject: [PATCH 07/37] fix: Theta no longer adds an attribute to the numpy
 module

---
 giddy/rank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 2141baf..e8efd44 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -103,8 +103,8 @@ class Theta:
         self.theta = self._calc(regime)
         self.permutations = permutations
         if permutations:
-            np.perm = np.random.permutation
-            sim = np.array([self._calc(np.perm(regime)) for i in range(permutations)])
+            perm = np.random.permutation
+            sim = np.array([self._calc(perm(regime)) for i in range(permutations)])
             self.theta.shape = (1, len(self.theta))
             sim = np.concatenate((self.theta, sim))
             self.sim = sim
-- 
2.43.0


From 13baa78d195226cb15f917267447801e5f771811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 08/37] fix: Theta.pvalue_right counts the observed value and
 is never 0

---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index e8efd44..701cbac 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -110,7 +110,7 @@ class Theta:
             self.sim = sim
             den = permutations + 1.0
             self.pvalue_left = (sim <= sim[0]).sum(axis=0) / den
-            self.pvalue_right = (sim > sim[0]).sum(axis=0) / den
+            self.pvalue_right = (sim >= sim[0]).sum(axis=0) / den
             self.z = (sim[0] - sim.mean(axis=0)) / sim.std(axis=0)
 
     def _calc(self, regime):
-- 
2.43.0


From 8a62bd59a43246b84fc89033752b8e0174fb3d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 09/37] fix: Tau_Local_Neighbor keeps the type of x in its
 permuted copy

---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 701cbac..ca0ea48 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -611,7 +611,7 @@ class Tau_Local_Neighbor:
             for i in range(self.n):
                 obs_i = self.tau_ln[i]  # observed value i LIMA statistic
                 yr = np.zeros_like(y)
-                xr = np.zeros_like(y)
+                xr = np.zeros_like(x)
                 rids = np.arange(self.n)
                 rids = np.delete(rids, i)
                 for j in range(permutations):
-- 
2.43.0


From 5918a03d2bf29ea475c4d137adbaf16738efd4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 10/37] fix: spatial rank statistics no longer change the
 transform of the caller's weights

---
 giddy/rank.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index ca0ea48..269f8f1 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -351,7 +351,6 @@ class SpatialTau:
     """
 
     def __init__(self, x, y, w, permutations=0):
-        w.transform = "b"
         self.n = len(x)
         res = Tau(x, y)
         self.tau = res.tau
@@ -362,7 +361,7 @@ class SpatialTau:
         self.extraY = res.extraY
         res = self._calc(x, y, w)
         self.tau_spatial = res[0]
-        self.pairs_spatial = int(w.s0 / 2.0)
+        self.pairs_spatial = int(sum(w.cardinalities.values()) / 2.0)
         self.concordant_spatial = res[1]
         self.discordant_spatial = res[2]
 
@@ -598,7 +597,6 @@ class Tau_Local_Neighbor:
         y = np.asarray(y)
         self.n = len(x)
 
-        w.transform = "b"
         self.tau_ln, self.tau_ln_weights = self._calc(x, y, w)
 
         concor_sign = np.ones(self.n)
@@ -651,12 +649,13 @@ class Tau_Local_Neighbor:
         else:
             tau_ln = np.zeros(self.n)
             tau_ln_weights = np.zeros(self.n)
+            n_pairs = sum(w.cardinalities.values())
             for i in w.id_order:
                 iS_local = 0
                 for j in w.neighbors[i]:
                     iS_local += self._calc_r(x[i], y[i], x[j], y[j], w)
                 tau_ln[i] = iS_local * 1.0 / w.cardinalities[i]
-                tau_ln_weights[i] = w.cardinalities[i] * 1.0 / w.s0
+                tau_ln_weights[i] = w.cardinalities[i] * 1.0 / n_pairs
             return tau_ln, tau_ln_weights
 
 
@@ -755,7 +754,6 @@ class Tau_Local_Neighborhood:
         self.S = res.S
         self.tau_local = res.tau_local
 
-        w.transform = "b"
         tau_lnhood = np.zeros(self.n)
         for i in range(self.n):
             neighbors_i = [i]
-- 
2.43.0


From 3bd180ff9abc2d8e180d7d02e823e2505f364bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 11/37] fix: Tau_Local_Neighbor sets the documented S and
 tau_local

---
 giddy/rank.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 269f8f1..f7139f2 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -595,7 +595,10 @@ class Tau_Local_Neighbor:
     def __init__(self, x, y, w, permutations=0):
         x = np.asarray(x)
         y = np.asarray(y)
-        self.n = len(x)
+        res = Tau_Local(x, y)
+        self.n = res.n
+        self.S = res.S
+        self.tau_local = res.tau_local
 
         self.tau_ln, self.tau_ln_weights = self._calc(x, y, w)
 
-- 
2.43.0


From 86da2c44a59b12f9fe44b461a91f35661cfa692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 12/37] fix: local and spatial tau compare values instead of
 multiplying differences

---
 giddy/rank.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index f7139f2..8c79c53 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -385,8 +385,8 @@ class SpatialTau:
                     ijs[(i, j)] = (i, j)
                     xj = x[j]
                     yj = y[j]
-                    dx = xi - xj
-                    dy = yi - yj
+                    dx = 1 * (xi > xj) - 1 * (xi < xj)
+                    dy = 1 * (yi > yj) - 1 * (yi < yj)
                     dxdy = dx * dy
                     if dxdy != 0:
                         n1 += 1
@@ -482,7 +482,9 @@ class Tau_Local:
         xx = x.reshape(self.n, 1)
         yy = y.reshape(self.n, 1)
 
-        C = (xx - xx.T) * (yy - yy.T)
+        dx = 1 * (xx > xx.T) - 1 * (xx < xx.T)
+        dy = 1 * (yy > yy.T) - 1 * (yy < yy.T)
+        C = dx * dy
         self.S = -1 * (C < 0) + 1 * (C > 0)
 
         self.tau = self.S.sum() * 1.0 / (self.n * (self.n - 1))
@@ -631,8 +633,8 @@ class Tau_Local_Neighbor:
             self.tau_ln_pvalues = tau_ln_pvalues
 
     def _calc_r(self, xi, yi, xj, yj, w):
-        dx = xi - xj
-        dy = yi - yj
+        dx = 1 * (xi > xj) - 1 * (xi < xj)
+        dy = 1 * (yi > yj) - 1 * (yi < yj)
         dxdy = dx * dy
         if dxdy != 0:
             if dxdy > 0.0:
-- 
2.43.0


From 0f23c3f5aa5ed914daeb75cee9c8619e5e85aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 13/37] fix: shuffle_matrix no longer reorders the caller's ids

---
 giddy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/util.py b/giddy/util.py
index 40b3e57..3dfffd1 100644
--- a/giddy/util.py
+++ b/giddy/util.py
@@ -39,7 +39,7 @@ def shuffle_matrix(X, ids):
            [ 6,  4,  7,  5]])
 
     """
-    np.random.shuffle(ids)
+    ids = np.random.permutation(ids)
     return X[ids, :][:, ids]
 
 
-- 
2.43.0


From 1e30044534712062cc911d9799137b9fd33ab765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:09 +0000
Subject: [PATCH 14/37] fix: mean first passage times of integer matrices are
 not truncated

---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index b92ad27..c61c38a 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -204,7 +204,7 @@ def _mfpt_ergodic(P):
 
     P = np.asarray(P)
     k = P.shape[0]
-    A = np.zeros_like(P)
+    A = np.zeros(P.shape)
     ss = _steady_state_ergodic(P)
     for j in range(k):
         A[:, j] = ss
-- 
2.43.0


From 1d63e080e04142f2c3a8aa74b7e74525b9981d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 15/37] fix: homogeneity tables of integer counts are not
 truncated

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 858e550..f4508f3 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1779,7 +1779,7 @@ class Homogeneity_Results:
 
     def _homogeneity(self, transition_matrices):
         # form null transition probability matrix
-        M = np.array(transition_matrices)
+        M = np.array(transition_matrices, dtype=float)
         m, r, k = M.shape
         self.k = k
         B = np.zeros((r, m))
-- 
2.43.0


From 3bdf9c2fdbbe7adb21931cb6e753c140075e83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 16/37] fix: empty rows neither add to nor make negative the
 degrees of freedom

---
 giddy/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index f4508f3..21cbfb9 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1142,7 +1142,7 @@ def chi2(T1, T2):
     dof1 = sum(rs1nz)
     dof2 = sum(rs2nz)
     rs2 = rs2 + (rs2 == 0)
-    dof = (dof1 - 1) * (dof2 - 1)
+    dof = max(dof1 - 1, 0) * max(dof2 - 1, 0)
     p = np.diag(1 / rs2).dot(np.array(T2))
     E = np.diag(rs1).dot(np.array(p))
     num = T1 - E
@@ -1822,7 +1822,7 @@ class Homogeneity_Results:
         # b_i is the number of regimes that have non-zero observations in row i
         # A_i is the number of non-zero elements in row i of the aggregated
         # transition matrix
-        self.dof = int(((b_i - 1) * (A_i - 1)).sum())
+        self.dof = int((np.maximum(b_i - 1, 0) * np.maximum(A_i - 1, 0)).sum())
         self.Q = Q
         self.Q_p_value = 1 - stats.chi2.cdf(self.Q, self.dof)
         self.LR = LR * 2.0
-- 
2.43.0


From 8a5e03dbf74186eef54f969cfac8f08c76fcf966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 17/37] fix: absorbing states are recognised whatever their
 number of transitions

---
 giddy/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 21cbfb9..f067aff 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -228,7 +228,7 @@ class Markov:
                     transitions[row, col] += sum(ending == j)
         self.transitions = transitions
         row_sum = transitions.sum(axis=1)
-        self.p = np.dot(np.diag(1 / (row_sum + (row_sum == 0))), transitions)
+        self.p = transitions / (row_sum + (row_sum == 0))[:, None]
 
         if fill_empty_classes:
             self.p = fill_empty_diagonals(self.p)
@@ -977,7 +977,7 @@ class Spatial_Markov:
         for i, mat in enumerate(T):
             row_sum = mat.sum(axis=1)
             row_sum = row_sum + (row_sum == 0)
-            p_i = np.array(np.diag(1.0 / row_sum)).dot(np.array(mat))
+            p_i = np.array(mat) / row_sum[:, None]
             P[i] = p_i
 
         if fill_empty_classes:
-- 
2.43.0


From e8971cc3277dd476fa2064a29bca0c878b1a7534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:56 +0000
Subject: [PATCH 18/37] fix: reading Markov.sojourn_time prints only if a
 summary was requested

---
 giddy/markov.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index f067aff..142d1a1 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -253,6 +253,7 @@ class Markov:
         self.astates_indices = list(np.argwhere(np.diag(p_temp) == 1))
         self.num_astates = len(self.astates_indices)
 
+        self._summary = summary
         if summary:
             if markovchain.is_irreducible:
                 print("The Markov Chain is irreducible and is composed by:")
@@ -298,7 +299,7 @@ class Markov:
     @property
     def sojourn_time(self):
         if not hasattr(self, "_st"):
-            self._st = sojourn_time(self.p)
+            self._st = sojourn_time(self.p, summary=self._summary)
         return self._st
 
 
-- 
2.43.0


From fb88e306cc32c3338ccb57aa33ef9e807923f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 19/37] fix: the markov option of Sequence prints no chain
 summary

---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 045f6cd..68545bc 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -228,7 +228,7 @@ class Sequence:
                     self._om_dist(y_int)
 
                 elif dist_type.lower() == "markov":
-                    p = Markov(y_int).p
+                    p = Markov(y_int, summary=False).p
                     self.indel = 1
                     mat = (2 - (p + p.T)) / 2
                     np.fill_diagonal(mat, 0)
-- 
2.43.0


From c3efd0bb72c76eb234d8d3a7f3ffaf1e8d9f85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 20/37] fix: the steady state is one dimensional whenever there
 is one recurrent class

---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index c61c38a..9ee277f 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -145,7 +145,7 @@ rows to be 1 to make sure the matrix is stochastic.
                 "sure the matrix is stochastic." % rows0
             )
     mc = qe.MarkovChain(P)
-    num_classes = mc.num_communication_classes
+    num_classes = mc.num_recurrent_classes
     if num_classes == 1:
         return mc.stationary_distributions[0]
     else:
-- 
2.43.0


From 7dd1bda5fb8c540aaa35736b5a057324b5bf1cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 21/37] fix: sequences over ten or more classes are not
 confused with each other

---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 68545bc..26c7a1e 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -336,7 +336,7 @@ class Sequence:
         """
         y_str = []
         for i in y_int:
-            y_str.append("".join(list(map(str, i))))
+            y_str.append(",".join(list(map(str, i))))
 
         moves_str, unique_indices = np.unique(y_str, axis=0, return_index=True)
         moves_int = y_int[unique_indices]
-- 
2.43.0


From 94b7b4fef8dea94268a6eccbf6b2cde2563b757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 22/37] fix: Sequence rejects unknown distance types

---
 giddy/sequence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 26c7a1e..e70ed7e 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -277,6 +277,9 @@ class Sequence:
                             y_tran_index[i, j] = dict_trans_state[y_tran[j][i]]
                     self._om_dist(y_tran_index)
 
+                else:
+                    raise ValueError(f"Unknown dist_type: {dist_type}")
+
         else:
             self._om_dist(y_int)
 
-- 
2.43.0


From cacebe3ba964c18fa5bebc086809132d138ff6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 23/37] fix: mean first passage times do not hide singular
 systems as infinities

---
 giddy/ergodic.py | 50 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 9ee277f..854be2f 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -220,6 +220,32 @@ def _mfpt_ergodic(P):
     return M
 
 
+def _can_reach(P, target):
+    """
+    States from which a set of target states can be reached.
+
+    Parameters
+    ----------
+    P        : array
+               (k, k), transition probabilities.
+    target   : array
+               (k, ), boolean, True for the target states.
+
+    Returns
+    -------
+             : array
+               (k, ), boolean, True for the target states and all the states
+               from which there is a path to a target state.
+
+    """
+
+    while True:
+        reaching = target | (P[:, target] > 0).any(axis=1)
+        if (reaching == target).all():
+            return reaching
+        target = reaching
+
+
 def fmpt(P, fill_empty_classes=False):
     warn(
         "fmpt is deprecated. It will be replaced in giddy 2.5 with mfpt",
@@ -327,24 +353,14 @@ rows to be 1 to make sure the matrix is stochastic.
             p_sub = np.delete(np.delete(P, desti, 0), desti, 1)
             p_calc = np.eye(k - 1) - p_sub
             m = np.full(k - 1, np.inf)
-            row0 = (p_calc != 0).sum(axis=1)
-            none0 = np.arange(k - 1)
-            try:
+            # states from which the destination cannot be reached, and states
+            # from which the chain may end up in one of those
+            reached = _can_reach(p_sub, np.delete(P[:, desti], desti) > 0)
+            none0 = np.where(~_can_reach(p_sub, ~reached))[0]
+            if len(none0) >= 1:
+                p_calc = p_calc[none0, :][:, none0]
+                b = b[none0]
                 m[none0] = np.linalg.solve(p_calc, b)
-            except np.linalg.LinAlgError as err:
-                if "Singular matrix" in str(err) and (row0 == 0).sum() > 0:
-                    index0 = set(np.argwhere(row0 == 0).flatten())
-                    x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                    setx = set(np.argwhere(x).flatten())
-                    while not setx.issubset(index0):
-                        index0 = index0.union(setx)
-                        x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                        setx = set(np.argwhere(x).flatten())
-                    none0 = np.asarray(list(set(none0).difference(index0)))
-                    if len(none0) >= 1:
-                        p_calc = p_calc[none0, :][:, none0]
-                        b = b[none0]
-                        m[none0] = np.linalg.solve(p_calc, b)
             recc = (
                 np.nan_to_num(
                     (np.delete(P, desti, 1)[desti] * m), 0, posinf=np.inf
-- 
2.43.0


From 347475fdc900a040869731c1a95cad4552b77707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:48 +0000
Subject: [PATCH 24/37] fix: permutations of Spatial_Markov keep the observed
 lag classes and permute discrete data

---
 giddy/markov.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 142d1a1..fc66ed5 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -823,7 +823,7 @@ class Spatial_Markov:
             for yi in y:
                 y_int.append(list(map(label_dict.get, yi)))
             self.class_ids = np.array(y_int)
-            self.lclass_ids = self.class_ids
+            y = self.class_ids
         else:
             self.class_ids, self.cutoffs, self.k = self._maybe_classify(
                 y, k=k, cutoffs=self.cutoffs
@@ -835,14 +835,16 @@ class Spatial_Markov:
         )
         self.p = classic.p
         self.transitions = classic.transitions
-        self.T, self.P = self._calc(y, w, fill_empty_classes=fill_empty_classes)
+        self.T, self.P, lag = self._calc(y, w, fill_empty_classes=fill_empty_classes)
+        self.lclass_ids, self.lag_cutoffs, self.m = lag
+        self.lclasses = np.arange(self.m)
 
         if permutations:
             nrp = np.random.permutation
             counter = 0
             x2_realizations = np.zeros((permutations, 1))
             for perm in range(permutations):
-                T, P = self._calc(nrp(y), w)
+                T, P, _ = self._calc(nrp(y), w)
                 x2 = [chi2(T[i], self.transitions)[0] for i in range(self.k)]
                 x2s = sum(x2)
                 x2_realizations[perm] = x2s
@@ -957,22 +959,20 @@ class Spatial_Markov:
 
         """
         if self.discrete:
-            self.lclass_ids = weights.lag_categorical(w, self.class_ids, ties="tryself")
+            lclass_ids = weights.lag_categorical(w, y, ties="tryself")
+            lag_cutoffs, m = self.lag_cutoffs, self.m
         else:
             ly = weights.lag_spatial(w, y)
-            self.lclass_ids, self.lag_cutoffs, self.m = self._maybe_classify(
+            lclass_ids, lag_cutoffs, m = self._maybe_classify(
                 ly, self.m, self.lag_cutoffs
             )
-            self.lclasses = np.arange(self.m)
 
-        T = np.zeros((self.m, self.k, self.k))
+        T = np.zeros((m, self.k, self.k))
         n, t = y.shape
         for t1 in range(t - 1):
             t2 = t1 + 1
             for i in range(n):
-                T[
-                    self.lclass_ids[i, t1], self.class_ids[i, t1], self.class_ids[i, t2]
-                ] += 1
+                T[lclass_ids[i, t1], self.class_ids[i, t1], self.class_ids[i, t2]] += 1
 
         P = np.zeros_like(T)
         for i, mat in enumerate(T):
@@ -983,7 +983,7 @@ class Spatial_Markov:
 
         if fill_empty_classes:
             P = fill_empty_diagonals(P)
-        return T, P
+        return T, P, (lclass_ids, lag_cutoffs, m)
 
     def _mn_test(self):
         """
-- 
2.43.0


From 00d4200469594ea368c5f4503fd1bcda32233ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 25/37] fix: Spatial_Markov runs over its lag classes when they
 differ from the classes

---
 giddy/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index fc66ed5..2baa7c4 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -845,7 +845,7 @@ class Spatial_Markov:
             x2_realizations = np.zeros((permutations, 1))
             for perm in range(permutations):
                 T, P, _ = self._calc(nrp(y), w)
-                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.k)]
+                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.m)]
                 x2s = sum(x2)
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
@@ -1044,7 +1044,7 @@ class Spatial_Markov:
         """
 
         class_names = ["C%d" % i for i in range(self.k)]
-        regime_names = ["LAG%d" % i for i in range(self.k)]
+        regime_names = ["LAG%d" % i for i in range(self.m)]
         ht = homogeneity(self.T, class_names=class_names, regime_names=regime_names)
         title = "Spatial Markov Test"
         if self.variable_name:
-- 
2.43.0


From f28bd0fcbd7d738d51dc85f3ca6673b72c847203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 26/37] fix: x2 degrees of freedom account for the number of
 lag classes

---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 2baa7c4..f211889 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -412,7 +412,8 @@ class Spatial_Markov:
     x2              : float
                       sum of the chi2 values for each of the conditional tests.
                       Has an asymptotic chi2 distribution with k(k-1)(k-1)
-                      degrees of freedom. Under the null that transition
+                      degrees of freedom (k(k-1)(m-1) if m differs
+                      from k). Under the null that transition
                       probabilities are spatially homogeneous.
                       (see chi2 above)
     x2_dof          : int
@@ -946,7 +947,7 @@ class Spatial_Markov:
     def x2_dof(self):
         if not hasattr(self, "_x2_dof"):
             k = self.k
-            self._x2_dof = k * (k - 1) * (k - 1)
+            self._x2_dof = k * (k - 1) * (self.m - 1)
         return self._x2_dof
 
     def _calc(self, y, w, fill_empty_classes=False):
-- 
2.43.0


From 73d7b0b2a7e9db823101380b2e3470ec478ae7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 27/37] fix: shtest does not divide by zero for transient
 classes and empty lags

---
 giddy/markov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index f211889..de62107 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1020,6 +1020,7 @@ class Spatial_Markov:
         o = nt * p2
         e = nt * p1
         d = np.multiply((o - e), (o - e))
+        e = e + (e == 0)
         d = d / e
         chi2 = d.sum()
         pvalue = 1 - stats.chi2.cdf(chi2, self.k - 1)
-- 
2.43.0


From a0e816f4bfd514e742aaf24f2246457ce805bc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 28/37] fix: classic transitions of Spatial_Markov keep classes
 that never occur

---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index de62107..110b40d 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -832,7 +832,10 @@ class Spatial_Markov:
             self.classes = np.arange(self.k)
 
         classic = Markov(
-            self.class_ids, fill_empty_classes=fill_empty_classes, summary=False
+            self.class_ids,
+            classes=np.arange(self.k),
+            fill_empty_classes=fill_empty_classes,
+            summary=False,
         )
         self.p = classic.p
         self.transitions = classic.transitions
-- 
2.43.0


From 6780a23bd8589c09af87554d2add9aa9a1d448f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:03 +0000
Subject: [PATCH 29/37] fix: LISA_Markov expectations keep a high or low state
 that never occurs

---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 110b40d..0605c3b 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1423,8 +1423,9 @@ class LISA_Markov(Markov):
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
-        markov_y = Markov(rc, summary=False)
-        markov_ylag = Markov(rlagc, summary=False)
+        high_low = np.array([False, True])
+        markov_y = Markov(rc, high_low, summary=False)
+        markov_ylag = Markov(rlagc, high_low, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
-- 
2.43.0


From 3766be425004edc33c7c231d16c012862a4e4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 30/37] fix: LISA_Markov expected transitions follow the geoda
 quadrant numbers

---
 giddy/markov.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index 0605c3b..1c7fa3b 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1427,6 +1427,8 @@ class LISA_Markov(Markov):
         markov_y = Markov(rc, high_low, summary=False)
         markov_ylag = Markov(rlagc, high_low, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
+        if geoda_quads:  # HH, LL, LH, HL instead of HH, LH, LL, HL
+            A = A[[0, 2, 1, 3]]
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
         trans = self.transitions.sum(axis=1)
-- 
2.43.0


From bbbd5f5840ca26f739062afe4774f95dd5f7d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 31/37] fix: spillover reports the components of the last
 period

---
 giddy/markov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 1c7fa3b..602e731 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1507,9 +1507,9 @@ class LISA_Markov(Markov):
             sig_ids = [np.nonzero(sig_lisas[:, i])[0].tolist() for i in range(k)]
 
             neighbors = self.w.neighbors
-            for t in range(k - 1):
+            for t in range(k):
                 s1 = sig_ids[t]
-                s2 = sig_ids[t + 1]
+                s2 = sig_ids[t + 1] if t < k - 1 else []
                 g1 = Graph(undirected=True)
                 for i in s1:
                     for neighbor in neighbors[i2id[i]]:
-- 
2.43.0


From ac097d0c934c95b9e966f200ed2db13e47b2e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:35 +0000
Subject: [PATCH 32/37] fix: the title given to homogeneity appears in its
 summary

---
 giddy/markov.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 602e731..b38e939 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1846,7 +1846,9 @@ class Homogeneity_Results:
         self.p_h0 = p_ij
         self.p_h1 = p_ijm
 
-    def summary(self, file_name=None, title="Markov Homogeneity Test"):
+    def summary(self, file_name=None, title=None):
+        if title is None:
+            title = self.title
         regime_names = ["%d" % i for i in range(self.m)]
         if self.regime_names:
             regime_names = self.regime_names
-- 
2.43.0


From a51d7ea6b1ab484da94bfe216f4c50635cb4ec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 33/37] fix: connected components of any size do not exhaust
 the call stack

---
 giddy/components.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index 065f45f..dc3ce6e 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -147,16 +147,14 @@ class Graph:
             return components
 
     def dfs(self, v, visited, threshold, op=lt, first=None):
-        aux = [v]
-        visited.add(v)
-        if first is None:
-            first = v
-        for i in (
-            n
-            for n, w in list(self.edges.get(v, {}).items())
-            if op(w, threshold) and n not in visited
-        ):
-            x, y = self.dfs(i, visited, threshold, op, first)
-            aux.extend(x)
-            visited = visited.union(y)
+        aux, stack = [], [v]
+        while stack:
+            node = stack.pop()
+            if node in visited:
+                continue
+            visited.add(node)
+            aux.append(node)
+            for n, w in self.edges.get(node, {}).items():
+                if op(w, threshold) and n not in visited:
+                    stack.append(n)
         return aux, visited
-- 
2.43.0


From 56d81b3dd306d81592994d50429918e29e69ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 34/37] fix: connected components are numbered in a
 reproducible order

---
 giddy/components.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index dc3ce6e..4f497d4 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -106,15 +106,15 @@ def check_contiguity(w, neighbors, leaver):
 
 class Graph:
     def __init__(self, undirected=True):
-        self.nodes = set()
+        self.nodes = {}  # used as an ordered set
         self.edges = {}
         self.cluster_lookup = {}
         self.no_link = {}
         self.undirected = undirected
 
     def add_edge(self, n1, n2, w):
-        self.nodes.add(n1)
-        self.nodes.add(n2)
+        self.nodes.setdefault(n1)
+        self.nodes.setdefault(n2)
         self.edges.setdefault(n1, {}).update({n2: w})
         if self.undirected:
             self.edges.setdefault(n2, {}).update({n1: w})
@@ -126,14 +126,12 @@ class Graph:
             print(warn)
             return None
         else:
-            nodes = set(self.nodes)
             components, visited = [], set()
-            while len(nodes) > 0:
-                connected, visited = self.dfs(nodes.pop(), visited, threshold, op)
-                connected = set(connected)
-                for node in connected:
-                    if node in nodes:
-                        nodes.remove(node)
+            for node in self.nodes:
+                if node in visited:
+                    continue
+                connected, visited = self.dfs(node, visited, threshold, op)
+                connected = dict.fromkeys(connected)
                 subgraph = Graph()
                 subgraph.nodes = connected
                 subgraph.no_link = self.no_link
-- 
2.43.0


From 967c45930eaa2f630d8e2f7ba98afe63c550eb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:26 +0000
Subject: [PATCH 35/37] fix: Rose.plot_vectors takes the ax and keyword options
 it documents

---
 giddy/directional.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index e2e4dac..e5f3647 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -366,7 +366,7 @@ class Rose:
         plt.xlim(xlim)
         plt.ylim(ylim)
 
-    def plot_vectors(self, arrows=True):
+    def plot_vectors(self, arrows=True, ax=None, **kwargs):
         """
         Plot vectors of positional transition of LISA values
         within quadrant in scatterplot in a polar plot.
@@ -393,5 +393,5 @@ class Rose:
 
         from .plotting import dynamic_lisa_vectors
 
-        fig, ax = dynamic_lisa_vectors(self, arrows=arrows)
+        fig, ax = dynamic_lisa_vectors(self, ax=ax, arrows=arrows, **kwargs)
         return fig, ax
-- 
2.43.0


From 4bbb08f9d514925979f0c596dc50ecaa0b3aa0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 36/37] fix: document the parameters of Tau_Regional and
 var_mfpt_ergodic by their names

---
 giddy/ergodic.py | 2 +-
 giddy/rank.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 854be2f..be8f0c1 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -392,7 +392,7 @@ def var_mfpt_ergodic(p):
 
     Parameters
     ----------
-    P      : array
+    p      : array
              (k, k), an ergodic Markov transition probability matrix.
 
     Returns
diff --git a/giddy/rank.py b/giddy/rank.py
index 8c79c53..2034e17 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -810,7 +810,7 @@ class Tau_Regional:
                       (n, ), first variable.
     y               : array
                       (n, ), second variable.
-    regimes         : array
+    regime          : array
                       (n, ), ids of which regime an observation belongs to.
     permutations    : int
                       number of random spatial permutations for
-- 
2.43.0


From 2d802c293b4f3b93b725bd6298ca1441339e961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 37/37] fix: the summary of a homogeneity test leaves the class
 names of the object alone

---
 giddy/markov.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index b38e939..5436e66 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1853,8 +1853,9 @@ class Homogeneity_Results:
         if self.regime_names:
             regime_names = self.regime_names
         cols = ["P(%s)" % str(regime) for regime in regime_names]
-        if not self.class_names:
-            self.class_names = list(range(self.k))
+        class_names = self.class_names
+        if not class_names:
+            class_names = list(range(self.k))
 
         max_col = max([len(col) for col in cols])
         col_width = max([5, max_col])  # probabilities have 5 chars
@@ -1885,21 +1886,19 @@ class Homogeneity_Results:
         print(lead)
 
         cols = ["P(%s)" % str(regime) for regime in self.regime_names]
-        if not self.class_names:
-            self.class_names = list(range(self.k))
-        cols.extend(["%s" % str(cname) for cname in self.class_names])
+        cols.extend(["%s" % str(cname) for cname in class_names])
 
         max_col = max([len(col) for col in cols])
         col_width = max([5, max_col])  # probabilities have 5 chars
         p0 = []
         line0 = ["{s: <{w}}".format(s="P(H0)", w=col_width)]
         line0.extend(
-            ["{s: >{w}}".format(s=cname, w=col_width) for cname in self.class_names]
+            ["{s: >{w}}".format(s=cname, w=col_width) for cname in class_names]
         )
         print("    ".join(line0))
         p0.append("&".join(line0))
         for i, row in enumerate(self.p_h0):
-            line = ["%*s" % (col_width, str(self.class_names[i]))]
+            line = ["%*s" % (col_width, str(class_names[i]))]
             line.extend(["%*.3f" % (col_width, v) for v in row])
             print("    ".join(line))
             p0.append("&".join(line))
@@ -1910,12 +1909,12 @@ class Homogeneity_Results:
             p0 = []
             line0 = ["{s: <{w}}".format(s="P(%s)" % regime_names[r], w=col_width)]
             line0.extend(
-                ["{s: >{w}}".format(s=cname, w=col_width) for cname in self.class_names]
+                ["{s: >{w}}".format(s=cname, w=col_width) for cname in class_names]
             )
             print("    ".join(line0))
             p0.append("&".join(line0))
             for i, row in enumerate(p1):
-                line = ["%*s" % (col_width, str(self.class_names[i]))]
+                line = ["%*s" % (col_width, str(class_names[i]))]
                 line.extend(["%*.3f" % (col_width, v) for v in row])
                 print("    ".join(line))
                 p0.append("&".join(line))
-- 
2.43.0

