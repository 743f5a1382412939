From 20073d060de31ad4fc78e72d759e78322f656d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 01/49] fix: let d-separation queries take any iterable (or no)
 conditioning set

---
 cdmir/graph/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/digraph.py b/cdmir/graph/digraph.py
index 0aff389..5614abc 100644
--- a/cdmir/graph/digraph.py
+++ b/cdmir/graph/digraph.py
@@ -35,6 +35,9 @@ class DiGraph(Graph):
 
         '''
 
+        # z is read several times below, so it must not be consumed by the first reader.
+        z = set() if z is None else set(z)
+
         # Phase I: Insert all ancestors of z into a
         node_l_queue = deque(z)
         a = set()
-- 
2.43.0


From 2ec4bccad728a188c6fc3c36f2467e29f4a1ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 02/49] fix: pdag2dag raises instead of looping forever when
 the PDAG has no consistent extension

---
 cdmir/graph/pdag2dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/pdag2dag.py b/cdmir/graph/pdag2dag.py
index a674a44..17eb249 100644
--- a/cdmir/graph/pdag2dag.py
+++ b/cdmir/graph/pdag2dag.py
@@ -20,6 +20,7 @@ def pdag2dag(pdag: PDAG):
     pdag_p = deepcopy(pdag)
     inde = np.zeros(pdag_p.number_of_nodes(), dtype=np.dtype(int)) # index whether the ith node has been removed. 1:removed; 0: not
     while 0 in inde:
+        n_removed = np.sum(inde)
         for i in range(pdag_p.number_of_nodes()):
             if inde[i] == 0:
                 sign = 0
@@ -39,6 +40,8 @@ def pdag2dag(pdag: PDAG):
                         if not pdag_copy.is_connected(nodes[index], nodes[i]):
                             pdag_copy.add_edge(Edge(nodes[index], nodes[i], Mark.Tail, Mark.Arrow), overwrite=False)
                     inde[i] = 1
+        if np.sum(inde) == n_removed: # no node can be removed: Dor & Tarsi's algorithm fails
+            raise ValueError('The PDAG does not admit a consistent DAG extension.')
 
     d = DiGraph(pdag_copy.node_list)
     for edge in pdag_copy.edges:
-- 
2.43.0


From 61ec77e6145ccd44ba4ad96163b3a89cac2e5903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 03/49] fix: Meek rule 3 requires the two parents to be
 non-adjacent

---
 cdmir/graph/pdag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index ea0bac7..57f342c 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -101,6 +101,8 @@ class PDAG(Graph):
                         continue
                     if not (self.is_fully_undirected(node_u, node_x) and self.is_fully_directed(node_x, node_w)):
                         continue
+                    if self.is_connected(node_v, node_x):
+                        continue
                     self.remove_edge(node_u, node_w)
                     self.add_edge(Edge(node_u, node_w, Mark.Tail, Mark.Arrow))
                     if verbose:
-- 
2.43.0


From 2c1779dbc60662299e1a8e8b2cd8fe7d94b142c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 04/49] fix: Meek rule 4 needs the directed path u -> v -> w

---
 cdmir/graph/pdag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index 57f342c..d950cc4 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -118,7 +118,7 @@ class PDAG(Graph):
             for node_v in self.nodes:
                 if node_v in [node_u, node_w]:
                     continue
-                if not (self.is_fully_undirected(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
+                if not (self.is_fully_directed(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
                     continue
                 for node_x in self.nodes:
                     if node_x in [node_u, node_v, node_w]:
-- 
2.43.0


From 4d9d8a1f3fee944bcf8b1d847248230b4422bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 05/49] fix: data_form_converter forwards positional arguments
 instead of colliding with self

---
 cdmir/utils/adapters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/adapters.py b/cdmir/utils/adapters.py
index 8e5a785..7f02f4b 100644
--- a/cdmir/utils/adapters.py
+++ b/cdmir/utils/adapters.py
@@ -14,6 +14,6 @@ def data_form_converter_for_class_method(func):
                 var_names = [i for i in range(0, n)]
         else:
             assert len(var_names) == n
-        return func(self=self, data=data, var_names=var_names, *args, **kwargs)
+        return func(self, data, var_names, *args, **kwargs)
 
     return wrapper
-- 
2.43.0


From 00f0cb858765f921e760d19a314ad1aa9e6966fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 06/49] fix: kernel caches identify data by its exact content,
 and polynomial kernels by their parameters

---
 cdmir/utils/kernel/_base.py      | 12 ++++++++++--
 cdmir/utils/kernel/gaussian.py   |  2 +-
 cdmir/utils/kernel/polynomial.py | 13 ++-----------
 3 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/cdmir/utils/kernel/_base.py b/cdmir/utils/kernel/_base.py
index 9721f68..d6274e1 100644
--- a/cdmir/utils/kernel/_base.py
+++ b/cdmir/utils/kernel/_base.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from numpy import eye, ndarray, shape
+from numpy import asarray, eye, ndarray, shape
 from numpy.linalg import pinv
 
 
@@ -12,8 +12,16 @@ class BaseKernel(object):
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
         return self.__kernel(xs, ys, self.__kernel_func)
 
+    @staticmethod
+    def _data_key(data: ndarray | None):
+        # str(ndarray) rounds and abbreviates, so the exact content has to identify cached data
+        if data is None:
+            return None
+        data = asarray(data)
+        return data.shape, data.dtype.str, data.tobytes()
+
     def __kernel(self, xs: ndarray, ys: ndarray, kernel_func, *args, **kwargs):
-        dict_key = hash(str((xs, ys)))
+        dict_key = (self._data_key(xs), self._data_key(ys), args)
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
diff --git a/cdmir/utils/kernel/gaussian.py b/cdmir/utils/kernel/gaussian.py
index 7640fca..5055ff4 100644
--- a/cdmir/utils/kernel/gaussian.py
+++ b/cdmir/utils/kernel/gaussian.py
@@ -30,7 +30,7 @@ class GaussianKernel(BaseKernel):
         if self.width_strategy != self.WidthStrategyEnum.manual:
             self.__update_kernel_width_by_width_strategy(self.width_strategy, xs)
 
-        dict_key = hash(str((xs, ys, self.width)))  # add width to cache
+        dict_key = (self._data_key(xs), self._data_key(ys), self.width)  # add width to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
diff --git a/cdmir/utils/kernel/polynomial.py b/cdmir/utils/kernel/polynomial.py
index 2848be9..e065091 100644
--- a/cdmir/utils/kernel/polynomial.py
+++ b/cdmir/utils/kernel/polynomial.py
@@ -15,15 +15,6 @@ class PolynomialKernel(BaseKernel):
     def __kernel_func(self, x: ndarray, y: ndarray):
         return pow(self.const + x.dot(y.T), self.degree)#const是加减上的调整，degree是控制多项式的次数
 
-    def __kernel(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        dict_key = hash(str((xs, ys, self.degree, self.const)))  # add 'degree' and 'const' to cache
-        if self.cache_dict.__contains__(dict_key):
-            res = self.cache_dict[dict_key]
-        else:
-            res = self.__kernel(xs, ys) #Plan B:改成 res = self.__kernel_func(xs,ys)
-            self.cache_dict[dict_key] = res
-
-        return res
-
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        return self._BaseKernel__kernel(xs, ys, self.__kernel_func) #Plan A：把self.__kernel改成return self._BaseKernel__kernel(xs, ys, self.__kernel_func)
+        # 'degree' and 'const' are part of the cache key
+        return self._BaseKernel__kernel(xs, ys, self.__kernel_func, self.degree, self.const)
-- 
2.43.0


From 5dcbfbb900698dee79328d5e73525316a52aa1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 07/49] fix: KCI exact mode used the removed alias np.int for
 more than 1000 records

---
 cdmir/utils/independence/kernel_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/kernel_based.py b/cdmir/utils/independence/kernel_based.py
index eadd548..162e7f1 100644
--- a/cdmir/utils/independence/kernel_based.py
+++ b/cdmir/utils/independence/kernel_based.py
@@ -109,7 +109,7 @@ class KCI(BaseConditionalIndependenceTest):
         def null_sample_spectral_from_centralized_kernel_matrix(self, Kxc, Kyc):
             T = Kxc.shape[0]
             if T > 1000:
-                num_eig = np.int(np.floor(T / 2))
+                num_eig = int(np.floor(T / 2))
             else:
                 num_eig = T
             lambdax = eigvalsh(Kxc)
-- 
2.43.0


From d2d413480085e014da5dcca178f59f5389170874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 08/49] fix: itest reads its conditioning ids once, so any
 iterable works

---
 cdmir/utils/independence/basic_independence.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/utils/independence/basic_independence.py b/cdmir/utils/independence/basic_independence.py
index c47af65..cafc930 100644
--- a/cdmir/utils/independence/basic_independence.py
+++ b/cdmir/utils/independence/basic_independence.py
@@ -36,6 +36,7 @@ class ConditionalIndependentTest(object):
         return self.itest(x_id, y_id, z_ids)
 
     def itest(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
+        z_ids = list(z_ids) if z_ids is not None else None
         key = _get_cache_key(x_id, y_id, z_ids)
         if self.cache.get(key):
             value = self.cache[key]
-- 
2.43.0


From 80b3c5821483b196be29fdef2b435b4e74b65a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 09/49] fix: Dsep answers queries without a conditioning set

---
 cdmir/utils/independence/dsep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/dsep.py b/cdmir/utils/independence/dsep.py
index e1fdc1c..f410675 100644
--- a/cdmir/utils/independence/dsep.py
+++ b/cdmir/utils/independence/dsep.py
@@ -11,7 +11,7 @@ class Dsep(ConditionalIndependentTest):
         self.true_graph = true_graph
 
     def cal_stats(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-        zs_name = [self.var_names[z_id] for z_id in z_ids]
+        zs_name = [self.var_names[z_id] for z_id in z_ids or ()]
         if self.true_graph.is_d_separate(self.var_names[x_id], self.var_names[y_id], zs_name):
             return 1.0, 1.0 #相关
         else:
-- 
2.43.0


From fa14835b0d3ac206a1f776f52e9b47111b27434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 10/49] fix: fisherz_from_corr accepts any iterable
 conditioning set, as declared

---
 cdmir/utils/independence/functional/fisherz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/functional/fisherz.py b/cdmir/utils/independence/functional/fisherz.py
index 500a6e9..e357a04 100644
--- a/cdmir/utils/independence/functional/fisherz.py
+++ b/cdmir/utils/independence/functional/fisherz.py
@@ -22,7 +22,7 @@ def fisherz(x, y, Z=None):
 
 
 def fisherz_from_corr(corr: ndarray, num_records: int, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-    z_ids = [] if z_ids is None else z_ids
+    z_ids = [] if z_ids is None else list(z_ids)
     var = [x_id, y_id] + z_ids
     sub_corr = corr[ix_(var, var)]
     inv_mat = inv(sub_corr)
-- 
2.43.0


From a0a54cddad891277047003369dde1dcf074a94d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 11/49] fix: local score memo is keyed by the parents
 themselves, not by the text of the iterable

---
 cdmir/utils/local_score/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/_base.py b/cdmir/utils/local_score/_base.py
index 0c6257d..180d8a9 100644
--- a/cdmir/utils/local_score/_base.py
+++ b/cdmir/utils/local_score/_base.py
@@ -16,7 +16,8 @@ class BaseLocalScoreFunction(object):
         self.cache_dict = dict()
 
     def _score(self, i: int, parent_i: Iterable[int], score_function):
-        dict_key = hash(str((i, parent_i)))
+        parent_i = list(parent_i)
+        dict_key = (i, tuple(parent_i))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-- 
2.43.0


From dadb44b02dcbb161785448e308cc8c1e47b17909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 12/49] fix: BDeuScore scores variables without parents

---
 cdmir/utils/local_score/bdeu_score.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/bdeu_score.py b/cdmir/utils/local_score/bdeu_score.py
index e08625b..814285c 100644
--- a/cdmir/utils/local_score/bdeu_score.py
+++ b/cdmir/utils/local_score/bdeu_score.py
@@ -42,7 +42,8 @@ class BDeuScore(BaseLocalScoreFunction):
         names = ['x{}'.format(var) for var in range(shape(self.data)[1])]
         Data_pd = DataFrame(self.data, columns=names)
         parant_names = ['x{}'.format(var) for var in parent_i]
-        Data_pd_group_Nij = Data_pd.groupby(parant_names)
+        # without parents there is a single (empty) parent configuration
+        Data_pd_group_Nij = Data_pd.groupby(parant_names if parant_names else [0] * len(Data_pd))
         Nij_map = {key: len(Data_pd_group_Nij.indices.get(key)) for key in Data_pd_group_Nij.indices.keys()}
         Nij_map_keys_list = list(Nij_map.keys())
 
-- 
2.43.0


From 9f81bdbf9bd1516b66832b86b7e81f179d19a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 13/49] fix: marginal likelihood scores failed on every call
 (ragged array, matrix/array mix)

---
 cdmir/utils/local_score/marginal_base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index 6726105..91f56b4 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -58,7 +58,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                 widthPA[m] = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)], axis=1)[0, 0])
             widthPA = widthPA * 2.5  # kernel width
 
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             logtheta0 = np.vstack([np.log(widthPA), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -67,9 +67,9 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
-            PA = np.zeros((T, 1))
-            logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
+            PA = np.asmatrix(np.zeros((T, 1)))
+            logtheta0 = np.vstack([100, 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
 
@@ -149,7 +149,7 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                 widthPA_all = np.hstack(
                     [widthPA_all, widthPA * np.ones((1, np.size(self.d_label[parent_i[m]])))])
             widthPA_all = widthPA_all * 2.5  # kernel width
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             logtheta0 = np.vstack([np.log(widthPA_all.T), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA_all,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -158,9 +158,9 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
-            PA = np.zeros((T, 1))
-            logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
+            PA = np.asmatrix(np.zeros((T, 1)))
+            logtheta0 = np.vstack([100, 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
 
-- 
2.43.0


From 2cca0a810409cf4b32ac0e1e4eb502dd0caad485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 14/49] fix: GeneralMarginalScore scored the parents against
 themselves instead of the variable

---
 cdmir/utils/local_score/marginal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index 91f56b4..f8947dc 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -21,7 +21,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
     def _score_function(self, i: int, parent_i: Iterable[int]):
         parent_i = list(parent_i)
         T = self.data.shape[0]
-        X = self.data[:, parent_i]
+        X = self.data[:, i]
 
         # set the kernel for X
         GX = np.sum(np.multiply(X, X), axis=1)
-- 
2.43.0


From 83a1cf3c73c3159cd340bf7016c708355e0ce925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 15/49] fix: get_performance compares graphs by their
 arrowheads; mark codes are not 0/1 labels

---
 cdmir/utils/metrics/graph_evaluation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/metrics/graph_evaluation.py b/cdmir/utils/metrics/graph_evaluation.py
index c7556a5..149ae3f 100644
--- a/cdmir/utils/metrics/graph_evaluation.py
+++ b/cdmir/utils/metrics/graph_evaluation.py
@@ -4,7 +4,7 @@ import numpy as np
 import pandas as pd
 from sklearn.metrics import f1_score, precision_score, recall_score
 
-from cdmir.graph import Graph, PDAG
+from cdmir.graph import Graph, Mark, PDAG
 
 
 
@@ -77,9 +77,9 @@ def shd(true_pdag: PDAG, est_pdag: PDAG):
 
 def get_performance(fitted, real, threshold=0, drop_diag=True):
     if isinstance(fitted,Graph):
-        fitted=fitted.to_numpy()
+        fitted = (fitted.to_numpy(transpose=True) == Mark.Arrow).astype(int)
     if isinstance(real, Graph):
-        real = real.to_numpy()
+        real = (real.to_numpy(transpose=True) == Mark.Arrow).astype(int)
     fitted = np.abs(fitted)
     if drop_diag:
         fitted = fitted - np.diag(np.diag(fitted))
-- 
2.43.0


From 16f632d3e2247a72b07e3824d8f7f7e640f12e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 16/49] fix: simulate_pnl sums each record's own terms, not the
 whole sample

---
 cdmir/datasets/simlulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 4eb5df8..4eac9f3 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -232,7 +232,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             noise = _gen_noise([n_samples, hidden], noise_type, noise_scale)
         func1 = _pnl_func_sequential(func1_type, pare_size, hidden, neg_slope, hidden)
         func2 = _pnl_func_sequential(func2_type, hidden, pare_size, neg_slope, hidden)
-        value = np.sum(func2(func1(parents) + noise))
+        value = np.sum(func2(func1(parents) + noise), axis=1)
         return value
 
     @staticmethod
-- 
2.43.0


From 061424c8caa8e4c7a20b7f640d985754343fe0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 17/49] fix: IID simulate_nonlinear_anm honours func_type

---
 cdmir/datasets/simlulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 4eac9f3..58ad0ef 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -211,7 +211,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
         for j in topo_order:
             parents = list(nx_graph.predecessors(j))
             X[:, j] = IIDSimulator._simulate_single_value_nonlinear_anm(n_samples, X[:, parents], noise_type,
-                                                                        scale_vec[j], hidden=hidden)
+                                                                        scale_vec[j], func_type=func_type, hidden=hidden)
         return X
 
     @staticmethod
-- 
2.43.0


From 7576b6ca65663850e1af38b12cc7c3385f465fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 18/49] fix: the 'cos' layer of the PNL simulators is a cosine,
 not a linear map

---
 cdmir/datasets/simlulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 58ad0ef..f62b01f 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -23,6 +23,8 @@ def _pnl_func(func_type, d_inputs, d_outputs, neg_slope=0.2):
         return lambda x: utils.leaky_relu(x, neg_slope)
     elif func_type == 'sin':
         return lambda x: np.sin(x)
+    elif func_type == 'cos':
+        return lambda x: np.cos(x)
     else:
         W1 = np.random.uniform(low=0.5, high=2.0, size=[d_inputs, d_outputs])
         W1[np.random.rand(*W1.shape) < 0.5] *= -1
-- 
2.43.0


From fa61da4a0f3786d08b084f049b2c620662fc4631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 19/49] fix: set_random_seed(None) no longer fails, so
 erdos_renyi and generate_lag_transitions run without a seed

---
 cdmir/datasets/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/utils.py b/cdmir/datasets/utils.py
index f6dfa08..e5182ff 100644
--- a/cdmir/datasets/utils.py
+++ b/cdmir/datasets/utils.py
@@ -11,7 +11,7 @@ def set_random_seed(seed, set_torch_seed=True):
     # 设置随机数种子
     np.random.seed(seed)
     random.seed(seed)
-    if set_torch_seed:
+    if set_torch_seed and seed is not None:
         torch.manual_seed(seed)
 
 
-- 
2.43.0


From fe1067d8ccb757d864f7f857308d3a29589600e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 20/49] fix: simulators accept integer and float32 noise scale
 arrays

---
 cdmir/datasets/simlulators.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index f62b01f..b3964ae 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -1,4 +1,5 @@
 from itertools import product
+from numbers import Real
 from typing import List, Optional, Tuple, Union
 
 import networkx as nx
@@ -108,7 +109,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, Real)
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -198,7 +199,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, Real)
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -276,7 +277,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, Real)
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -355,7 +356,7 @@ class TimeLagSimulator:  # generate the time series dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, Real)
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -450,7 +451,7 @@ class TimeLagSimulator:  # generate the time series dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, Real)
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
@@ -528,7 +529,7 @@ class TimeLagSimulator:  # generate the time series dataset
             scale_vec = noise_scale * np.ones(n_nodes)
         elif len(noise_scale) == n_nodes:
             for ns in noise_scale:
-                assert isinstance(ns, (int, float))
+                assert isinstance(ns, Real)
             scale_vec = noise_scale
         else:
             raise ValueError('noise scale must be a scalar or has length d')
-- 
2.43.0


From 5ead010f08c24cb920c346fb8a92a474dc6d08ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 21/49] fix: PNL function sequences may start with an
 element-wise layer when the hidden size differs

---
 cdmir/datasets/simlulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index b3964ae..e1eef5a 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -42,6 +42,8 @@ def _pnl_func_sequential(func_type, d_inputs, d_outputs, neg_slope=0.2, hidden=N
         last_linear = (func_type[0] == 'linear' and 'linear' not in func_type[1:])
         hidden = hidden if 'linear' in func_type[1:] else d_outputs
         layer_d_outputs = d_outputs if last_linear else hidden
+        if func_type[0] != 'linear':  # an element-wise layer keeps the width of its input
+            layer_d_outputs = d_inputs
         func = _pnl_func(func_type[0], d_inputs, layer_d_outputs, neg_slope)
         follow_func = _pnl_func_sequential(func_type[1:], layer_d_outputs, d_outputs, neg_slope, hidden)
 
-- 
2.43.0


From 739af9d05180ccb30e1375800704e705ddc8ee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 22/49] fix: time-lag simulate_nonlinear_anm draws each
 mechanism once, and parentless variables are pure noise

---
 cdmir/datasets/simlulators.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index e1eef5a..478107a 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -377,19 +377,16 @@ class TimeLagSimulator:  # generate the time series dataset
         return Xt_
 
     @staticmethod
-    def _simulate_single_value_nonlinear_anm(
-            pare_lags, func_type='mlp', hidden=None
-    ):
-        pare_size = pare_lags.shape[1]
+    def _nonlinear_anm_func(pare_size, func_type='mlp', hidden=None):
         if pare_size == 0:
-            return 0.0
+            return lambda pare_lags: 0.0
         if func_type == 'mlp':
             hidden = 100 if hidden is None else hidden
             W1 = np.random.uniform(low=0.5, high=2.0, size=[pare_size, hidden])
             W1[np.random.rand(*W1.shape) < 0.5] *= -1
             W2 = np.random.uniform(low=0.5, high=2.0, size=hidden)
             W2[np.random.rand(hidden) < 0.5] *= -1
-            value = sigmoid(np.sum(pare_lags @ W1, axis=0)) @ W2
+            return lambda pare_lags: sigmoid(np.sum(pare_lags @ W1, axis=0)) @ W2
         elif func_type == 'mim':
             W1 = np.random.uniform(low=0.5, high=2.0, size=pare_size)
             W1[np.random.rand(pare_size) < 0.5] *= -1
@@ -397,22 +394,20 @@ class TimeLagSimulator:  # generate the time series dataset
             W2[np.random.rand(pare_size) < 0.5] *= -1
             W3 = np.random.uniform(low=0.5, high=2.0, size=pare_size)
             W3[np.random.rand(pare_size) < 0.5] *= -1
-            value = np.tanh(np.sum(pare_lags @ W1)) \
-                    + np.cos(np.sum(pare_lags @ W2)) \
-                    + np.sin(np.sum(pare_lags @ W3))
+            return lambda pare_lags: (np.tanh(np.sum(pare_lags @ W1))
+                                      + np.cos(np.sum(pare_lags @ W2))
+                                      + np.sin(np.sum(pare_lags @ W3)))
         else:
             raise ValueError('Unknown function type. The options are follows: mlp or mim. ')
-        return value
 
     @staticmethod
     def _simulate_single_time_nonlinear_anm(
-            n_nodes, value_lags, adj_mats, noise_type='gauss', noise_scale=1.0, func_type='mlp', hidden=None):
+            n_nodes, value_lags, adj_mats, func_series, noise_type='gauss', noise_scale=1.0):
         value_t = np.zeros(n_nodes)
         noise = _gen_noise(n_nodes, noise_type, noise_scale)
 
         for j in range(n_nodes):
-            value_t[j] = TimeLagSimulator._simulate_single_value_nonlinear_anm(
-                np.multiply(value_lags, adj_mats[:, :, j]), func_type, hidden)
+            value_t[j] = func_series[j](np.multiply(value_lags, adj_mats[:, :, j]))
         value_t += noise
         value_lags = np.concatenate((value_lags, value_t[np.newaxis, :]), axis=0)[1:, :]
 
@@ -463,9 +458,12 @@ class TimeLagSimulator:  # generate the time series dataset
         for lag in range(max_lag):
             Xt_.append(X_lags[lag, :])
 
+        # the mechanism of a variable does not change over time, and a variable without parents is pure noise
+        func_series = [TimeLagSimulator._nonlinear_anm_func(n_nodes if np.any(adj_mats[:, :, j]) else 0, func_type, hidden)
+                       for j in range(n_nodes)]
         for t in range(length):
             X_lags, X_t = TimeLagSimulator._simulate_single_time_nonlinear_anm(
-                n_nodes, X_lags, adj_mats, noise_type, noise_scale, func_type, hidden)
+                n_nodes, X_lags, adj_mats, func_series, noise_type, noise_scale)
             Xt_.append(X_t)
         Xt_ = np.array(Xt_)
 
-- 
2.43.0


From 04f855fa38f0e09fde4f4b39bff38fa40bbbc8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 23/49] fix: leaky_relu does not truncate the negative part of
 integer inputs

---
 cdmir/datasets/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cdmir/datasets/utils.py b/cdmir/datasets/utils.py
index e5182ff..0cd4889 100644
--- a/cdmir/datasets/utils.py
+++ b/cdmir/datasets/utils.py
@@ -29,9 +29,8 @@ def np2nx(np_data, create_using=None):
 
 def leaky_relu(inputs, neg_slope=0.2):
     assert neg_slope > 0
-    leaky_relu_1d = lambda x: x if x > 0 else x * neg_slope
-    leaky1d = np.vectorize(leaky_relu_1d)
-    return leaky1d(inputs)
+    inputs = np.asarray(inputs)
+    return np.where(inputs > 0, inputs, inputs * neg_slope)
 
 
 def _random_permutation(mat):
-- 
2.43.0


From e1d7abf5b29ad05b4ed110465c2ffe06c9c13406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:22 +0000
Subject: [PATCH 24/49] fix: nonlinear entropy modules import their utilities
 from the package

---
 .../entropy_based/entropy_based_discovery/nonlinear.py | 10 +++++-----
 .../entropy_based_discovery/nonlinear_ent.py           |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
index 098ab48..433a644 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
@@ -3,7 +3,7 @@ import math
 import numpy as np
 import torch
 import torch.nn as nn
-import utils as utils
+from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.lbfgsb_scipy import LBFGSBScipy
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.locally_connected import LocallyConnected
 
@@ -215,7 +215,7 @@ def main():
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
     # ut.set_random_seed(123)
 
     """
@@ -286,7 +286,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
 
     print("n={}, d={}, s0={}, l1={}, l2={}, graph_type={}, sem_type={}, noise={}, low={}, high={}".
           format(n, d, s0, lambda1, lambda2, graph_type, sem_type, noise_dist, low, high))
@@ -305,7 +305,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
 
 
 def run_real():
-    import utils
+    from . import utils
 
     B_true = utils.readcsv('data/true.csv')
     X = utils.readcsv('data/sachs_unstand.csv')
@@ -326,7 +326,7 @@ def run_real():
 
 
 def run_real_853(lambda1=1e-1, lambda2=1e-1):
-    import utils
+    from . import utils
     print(lambda1, lambda2)
     path = "sachs/continuous/data1.npy"
     X = np.load(path)
diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
index 91dcf18..e0302b4 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
@@ -279,7 +279,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
 
 def run_real_853(lamda1, lamda2):
     print('run 853')
-    import utils
+    from . import utils
     lambda1 = lamda1
     lambda2 = lamda2
     print(lambda1, lambda2)
-- 
2.43.0


From a0381c47e6cf186315227fd022510e253b58a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 25/49] fix: matrix exponential by Pade approximation could not
 be imported or solved (relative imports, removed torch.solve)

---
 .../score_based/entropy_based/pytorch_expm/expm32.py          | 2 +-
 .../score_based/entropy_based/pytorch_expm/expm64.py          | 2 +-
 .../score_based/entropy_based/pytorch_expm/expm_pade.py       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
index b4e0ef5..f4d7408 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
@@ -259,7 +259,7 @@ def _expm(A):
 def _solve_P_Q(U, V):
     P = U + V
     Q = -U + V
-    return torch.solve(P, Q)[0]
+    return torch.linalg.solve(Q, P)
 
 
 def _ell(A, m):
diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
index 2f5e3b2..de48450 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
@@ -289,7 +289,7 @@ def _expm(A):
 def _solve_P_Q(U, V):
     P = U + V
     Q = -U + V
-    return torch.solve(P, Q)[0]
+    return torch.linalg.solve(Q, P)
 
 
 def _ell(A, m):
diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
index d36d3d8..b23d1e6 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
@@ -1,8 +1,8 @@
 import numpy as np
 import torch
 
-from expm32 import expm32
-from expm64 import expm64
+from .expm32 import expm32
+from .expm64 import expm64
 
 def differential(A, E, f):
     n = A.size(0)
-- 
2.43.0


From 1032e6032789b18d691d671209913e850cb79758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 26/49] fix: Pade matrix exponential of nilpotent matrices
 (weighted DAGs) overflowed

---
 .../discovery/score_based/entropy_based/pytorch_expm/expm32.py  | 2 +-
 .../discovery/score_based/entropy_based/pytorch_expm/expm64.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
index f4d7408..907f740 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
@@ -248,7 +248,7 @@ def _expm(A):
 
     theta_7 = 3.9257248464332842e+000
     eta_3 = max(h.d6_tight, h.d8_loose)
-    s = max(int(np.ceil(np.log2(eta_3 / theta_7))), 0)
+    s = max(int(np.ceil(np.log2(eta_3 / theta_7))), 0) if eta_3 > 0 else 0  # eta_3 == 0: nilpotent matrix
 
     s += _ell(2**-s * h.A, 7)
     U, V = h.pade7_scaled(s)
diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
index de48450..f2e7894 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
@@ -278,7 +278,7 @@ def _expm(A):
     eta_5 = min(eta_3, eta_4)
     theta_13 = 4.25
 
-    s = max(int(np.ceil(np.log2(eta_5 / theta_13))), 0)
+    s = max(int(np.ceil(np.log2(eta_5 / theta_13))), 0) if eta_5 > 0 else 0  # eta_5 == 0: nilpotent matrix
 
     s += _ell(2**-s * h.A, 13)
     U, V = h.pade13_scaled(s)
-- 
2.43.0


From 2d34843ac074d340e8babf0808dcf62fcc29dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 27/49] fix: entropy_loss_G1_high_order took the variance of
 the already standardised residual

---
 .../score_based/entropy_based/entropy_based_discovery/utils.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
index 5ea62e0..e61e3cb 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
@@ -490,13 +490,13 @@ def entropy_loss_G1(output, input):
 
 def entropy_loss_G1_high_order(output, input):
     residual = input - output
+    variance = torch.var(residual)
     residual = (residual - torch.mean(residual)) / torch.std(residual)
     x_2 = torch.pow(residual, 2)
     x_3 = torch.pow(residual, 3)
     x_4 = torch.pow(residual, 4)
     k_3 = torch.mean(x_3) / torch.pow(torch.mean(x_2), 3. / 2.)
     k_4 = torch.mean(x_4) / torch.pow(torch.mean(x_2), 4. / 2.)
-    variance = torch.var(residual)
     loss = 1 / 2 * torch.log(variance) - 1 / 12 * torch.pow(k_3, 2) - 1 / 48 * torch.pow(k_4, 2) \
            - torch.pow(torch.mean(torch.log(torch.cosh(residual))), 2)
     return loss
-- 
2.43.0


From 4a5ee82243712bb2eae67d4f374980cb0ff78af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 28/49] fix: the l2 term of the linear entropy model was a
 constant of the data, so lambda2 had no effect

---
 .../entropy_based/entropy_based_discovery/linear_ent.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear_ent.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear_ent.py
index c62dd8f..c1ca3f9 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear_ent.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/linear_ent.py
@@ -105,7 +105,7 @@ class linear_nonGauss(nn.Module):
             x_hat = self.linear_pos(x) - self.linear_neg(x)
         else:
             x_hat = self.linear(x)
-        self.l2_reg_store = torch.sum(x ** 2) / x.shape[0]
+        self.l2_reg_store = torch.sum(x_hat ** 2) / x.shape[0]
         return x_hat
 
 
-- 
2.43.0


From 94d46bfda8a705d3f99753e0f28f2f15efe076b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 29/49] fix: ICA-LiNGAM permutes rows and columns together and
 reports in the order of the data

---
 .../funtional_based/lingam_based/ica_lingam.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 4783084..d3e4b16 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -24,9 +24,11 @@ def find_W_wave(W):
 
 
 def find_B_wave(B_hat):
+    # rows and columns are permuted together: they are the same variables
     P_list = find_all_P(B_hat.shape[0])
-    score = [sum(np.diag((P.dot(B_hat) * P.dot(B_hat)).dot(np.tri(B_hat.shape[0])))) for P in P_list]
-    return P_list[np.argmin(score)].dot(B_hat)
+    score = [np.sum(np.triu(P.dot(B_hat).dot(P.T)) ** 2) for P in P_list]
+    P = P_list[np.argmin(score)]
+    return P.dot(B_hat).dot(P.T), P
 
 
 def g(x):
@@ -178,13 +180,16 @@ class ICA_LINGAM(object):
         B_hat = np.eye(W_wave_slash.shape[0]) - W_wave_slash
 
         # find B_wave
-        B_wave = find_B_wave(B_hat)
+        B_wave, P = find_B_wave(B_hat)
 
         # prune upper triangle
         for x in range(B_wave.shape[0]):
             for y in range(x, B_wave.shape[1]):
                 B_wave[x, y] = 0
 
+        # back to the order of the data
+        B_wave = P.T.dot(B_wave).dot(P)
+
         # wald test
         B_Prune = wald_prune(data.T, W_wave, B_wave, 0.5)
 
-- 
2.43.0


From c4d1c1f3e8ad114de3f48e36194bb2e3a67aea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 30/49] fix: ICA-LiNGAM prunes at wald_alpha instead of a
 constant 0.5

---
 cdmir/discovery/funtional_based/lingam_based/ica_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index d3e4b16..7f5d12d 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -191,7 +191,7 @@ class ICA_LINGAM(object):
         B_wave = P.T.dot(B_wave).dot(P)
 
         # wald test
-        B_Prune = wald_prune(data.T, W_wave, B_wave, 0.5)
+        B_Prune = wald_prune(data.T, W_wave, B_wave, self.wald_alpha)
 
         # Linear Regression
         reg_list = {i: B_wave[i, :] != 0 for i in range(B_Prune.shape[0])}
-- 
2.43.0


From 483160c64de411f41d04e4a48fb6b50b429b5473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:07 +0000
Subject: [PATCH 31/49] fix: ANM residual broadcast an (n,) prediction against
 an (n, 1) target, so both directions got the same score

---
 cdmir/discovery/funtional_based/anm/ANM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/anm/ANM.py b/cdmir/discovery/funtional_based/anm/ANM.py
index 69b4363..1405c06 100644
--- a/cdmir/discovery/funtional_based/anm/ANM.py
+++ b/cdmir/discovery/funtional_based/anm/ANM.py
@@ -100,7 +100,7 @@ class ANM(object):
 
     def anm_score(self, x, y):
         gp = GaussianProcessRegressor().fit(x, y)
-        y_predict = gp.predict(x)
+        y_predict = gp.predict(x).reshape(y.shape)  # predict drops the column axis
         nonindepscore = normalized_hsic(y_predict - y, x)
 
         return nonindepscore
-- 
2.43.0


From 75424fb1787b0a9508ff59f02b0f7a33b74acf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 32/49] fix: ANM regresses with the fixed unit kernel; the
 tuned default interpolates the data and leaves no residual

---
 cdmir/discovery/funtional_based/anm/ANM.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/anm/ANM.py b/cdmir/discovery/funtional_based/anm/ANM.py
index 1405c06..256ea50 100644
--- a/cdmir/discovery/funtional_based/anm/ANM.py
+++ b/cdmir/discovery/funtional_based/anm/ANM.py
@@ -4,6 +4,7 @@ Additive Noise Model.
 
 import numpy as np
 from sklearn.gaussian_process import GaussianProcessRegressor
+from sklearn.gaussian_process.kernels import RBF, ConstantKernel
 from sklearn.preprocessing import scale
 
 
@@ -99,7 +100,9 @@ class ANM(object):
         return nonindepscore_forward, nonindepscore_backward
 
     def anm_score(self, x, y):
-        gp = GaussianProcessRegressor().fit(x, y)
+        # fixed unit kernel: tuned without a noise term, the length scale shrinks until the data are interpolated
+        kernel = ConstantKernel(1.0, constant_value_bounds='fixed') * RBF(1.0, length_scale_bounds='fixed')
+        gp = GaussianProcessRegressor(kernel).fit(x, y)
         y_predict = gp.predict(x).reshape(y.shape)  # predict drops the column axis
         nonindepscore = normalized_hsic(y_predict - y, x)
 
-- 
2.43.0


From e939dc78df600e664532e29412cc7da8da73a77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 33/49] fix: OLC works on its own copy of the data

---
 cdmir/discovery/funtional_based/one_component/olc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/discovery/funtional_based/one_component/olc.py b/cdmir/discovery/funtional_based/one_component/olc.py
index ed53a63..5aa76c6 100644
--- a/cdmir/discovery/funtional_based/one_component/olc.py
+++ b/cdmir/discovery/funtional_based/one_component/olc.py
@@ -51,6 +51,7 @@ def surrogate_regression(data, A, X, common_exogenous, mod_omega=False, z=None):
 
 
 def olc(data, alpha=0.05, beta=0.01, verbose=False):
+    data = np.array(data, dtype=float)  # residuals replace columns below: not in the caller's data
     n = data.shape[1]
     UDG = nx.Graph()
     CG = nx.DiGraph()
-- 
2.43.0


From b7524535829dd48a9d315f01a900a0dcdd38067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 34/49] fix: SHP accepts tables whose columns are all numbers
 with fractional times (type index became a float)

---
 cdmir/discovery/point_process/SHP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 210d699..9bc5046 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -78,7 +78,7 @@ class SHP(object):
         for seq_id, time_stamp, _, times, type_ind, _ in self.event_table.values:
             if (seq_id, time_stamp) not in X_dict:
                 X_dict[(seq_id, time_stamp)] = [0] * self.n
-            X_dict[(seq_id, time_stamp)][type_ind] = times
+            X_dict[(seq_id, time_stamp)][int(type_ind)] = times
         self.X_df = pd.DataFrame(X_dict).T
 
         self.X = self.X_df.values
-- 
2.43.0


From b6e400bd6ff4f03f6ac975efccc4d7987fca7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 35/49] fix: SHP's EM step maximises the likelihood it reports,
 also without a time interval (alpha was divided by the interval)

---
 cdmir/discovery/point_process/SHP.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 9bc5046..89f7fd0 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -151,6 +151,7 @@ class SHP(object):
         alpha = self.random_state.uniform(0, 1, [len(self.event_names), len(self.event_names)])
         alpha = alpha * edge_mat
         mu = np.ones(len(self.event_names))
+        integral = self.decay_effect_integral_to_T.values.sum(0)  # of kappa, over each event's remaining time
         L = 0
 
         # calculate the likelihood for each event type i
@@ -171,7 +172,7 @@ class SHP(object):
                     lambda_for_i = (self.sum_t_X_kappa * alpha[:, i]).sum(1) + mu[i]
                     # the second term of likelihood function
                     X_log_lambda = (self.X[:, i] * np.log(lambda_for_i)).sum()
-                    lambda_i_sum = (((1 / self.decay) * self.X).sum(0) * alpha[:, i].T).sum() + mu[i] * self.T
+                    lambda_i_sum = (integral * alpha[:, i].T).sum() + mu[i] * self.T
 
                     # calculate the likelihood
                     new_Li = -lambda_i_sum + X_log_lambda
@@ -195,7 +196,7 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = integral[j]
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
@@ -218,6 +219,7 @@ class SHP(object):
         alpha = self.random_state.uniform(0, 1, [len(self.event_names), len(self.event_names)])
         alpha = alpha * edge_mat
         mu = np.ones(len(self.event_names))
+        integral = self.decay_effect_integral_to_T.values.sum(0)  # of kappa, over each event's remaining time
         L = 0
 
         for i in (range(len(self.event_names))):
@@ -237,7 +239,7 @@ class SHP(object):
                     lambda_for_i = (self.sum_t_X_kappa * alpha[:, i]).sum(1) + mu[i]
                     # the second term of likelihood function
                     X_log_lambda = (self.X[:, i] * np.log(lambda_for_i)).sum()
-                    lambda_i_sum = (((1 / self.decay) * self.X).sum(0) * alpha[:, i].T).sum() + mu[i] * self.T
+                    lambda_i_sum = (integral * alpha[:, i].T).sum() + mu[i] * self.T
 
                     new_Li = -lambda_i_sum + X_log_lambda
                     # Iteration termination condition
@@ -260,7 +262,7 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = integral[j]
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
-- 
2.43.0


From 890718fe026c4065a676e609f82454664a2774e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 36/49] fix: SHP hill climbing weights the AIC penalty by reg,
 as EM_not_HC does

---
 cdmir/discovery/point_process/SHP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 89f7fd0..e9fc745 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -204,7 +204,7 @@ class SHP(object):
 
                 i += 1
         if self.penalty == 'AIC':
-            return L - (len(self.event_names) + edge_mat.sum()), alpha, mu
+            return L - (len(self.event_names) + edge_mat.sum()) * self.reg, alpha, mu
         if self.penalty == 'BIC':
             return L - (len(self.event_names) + edge_mat.sum()) * np.log(
                 self.event_table['times'].sum()) * self.reg, alpha, mu
-- 
2.43.0


From b989467850a6986b74da287c30942e0d2361064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 37/49] fix: get_interval_events leaves the caller's event
 table unchanged

---
 cdmir/discovery/point_process/SHP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index e9fc745..1c86a46 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -13,6 +13,7 @@ __MIN__ = -np.inf
 
 
 def get_interval_events(event_table, time_interval=20):
+    event_table = event_table.copy()
     event_table['time_stamp'] = (event_table['time_stamp'] / time_interval).astype('int') * time_interval
     events = [[event_table[(event_table['event_type'] == i) & (event_table['seq_id'] == j)][
                    'time_stamp'].values.astype('float') for i in
-- 
2.43.0


From 949a31d2cc0372dc766e5937f56a7be0334507c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 38/49] fix: modules of LearningHierarchicalStructure could not
 be imported from the package

---
 .../Causal_Discovery_in_LHM.py                       | 12 ++++++------
 .../FindCausalCluster.py                             |  8 ++++----
 .../Infer_Causal_Order.py                            |  2 +-
 .../LearningHierarchicalStructure/MergeCluster.py    |  6 +++---
 .../MergeCluster_backup.py                           |  6 +++---
 .../LearningHierarchicalStructure/Orientation.py     |  6 +++---
 .../LearningHierarchicalStructure/TetradMethod.py    |  4 ++--
 .../LearningHierarchicalStructure/UpdataData.py      |  2 +-
 .../indTest/HSICtestImpure.py                        |  4 ++--
 .../indTest/independence.py                          |  2 +-
 10 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py
index 9fe6664..941cd6d 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py
@@ -1,11 +1,11 @@
-import FindCausalCluster
-import MakeGraph
-import MergeCluster as MC
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import FindCausalCluster
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import MakeGraph
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import MergeCluster as MC
 import numpy as np
-import Orientation
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Orientation
 import pandas as pd
-import UpdataData
-import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import UpdataData
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
 
 
 def Causal_Discovery_LHM(data, alpha=0.01):
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/FindCausalCluster.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/FindCausalCluster.py
index 36ff8f6..f595348 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/FindCausalCluster.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/FindCausalCluster.py
@@ -1,11 +1,11 @@
 import itertools
 
-import MergeCluster
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import MergeCluster
 import numpy as np
-import Overlap_Merge
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Overlap_Merge
 import pandas as pd
-import TetradMethod
-import VanishedTest as VT
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import TetradMethod
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import VanishedTest as VT
 
 
 def FindCausalCluster(data, PureCluster, ImpureCluster, alpha=0.01):
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Infer_Causal_Order.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Infer_Causal_Order.py
index 06330cc..e924aae 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Infer_Causal_Order.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Infer_Causal_Order.py
@@ -1,4 +1,4 @@
-import GIN2 as GIN  # GIN based on mutual information
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import GIN2 as GIN  # GIN based on mutual information
 import numpy as np
 import pandas as pd
 
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster.py
index 0c6b5fa..bcc80cc 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster.py
@@ -2,9 +2,9 @@ import itertools
 
 import numpy as np
 import pandas as pd
-import UpdataData
-import Utils
-import VanishedTest as VT
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import UpdataData
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import VanishedTest as VT
 
 
 def MergeCausalCluster(LearnedClusters, PureClusters, ImpureClusters, AllCausalCluster, GeneralPureClusters,
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster_backup.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster_backup.py
index da31449..9eeb364 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster_backup.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster_backup.py
@@ -2,9 +2,9 @@ import itertools
 
 import numpy as np
 import pandas as pd
-import UpdataData
-import Utils
-import VanishedTest as VT
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import UpdataData
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import VanishedTest as VT
 
 
 def MergeCausalCluster(LearnedClusters, PureClusters, ImpureClusters, AllCausalCluster, GeneralPureClusters,
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Orientation.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Orientation.py
index 584363a..aa92a32 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Orientation.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Orientation.py
@@ -1,8 +1,8 @@
-import GIN2 as GIN
-import Infer_Causal_Order
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import GIN2 as GIN
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Infer_Causal_Order
 import numpy as np
 import pandas as pd
-import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
 
 
 def Orientation_Cluster(Ora_data, LatentIndex, PureClusters, AllCausalCluster):
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
index e945acc..c8f1caf 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
@@ -12,7 +12,7 @@ import itertools
 
 import numpy as np
 import pandas as pd
-import VanishedTest as VT
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import VanishedTest as VT
 
 '''
 Function: Check whether a variable set C is a causal cluster
@@ -89,7 +89,7 @@ def JudgePureCluster(C, data, alpha=0.01):
     return False
 
 
-import Paper_simulation as SD
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Paper_simulation as SD
 
 
 def main():
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
index 9ab0ea1..889b446 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
@@ -1,6 +1,6 @@
 import numpy as np
 import pandas as pd
-import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
 
 # roll back the latent variable into their measured varaible set
 '''
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICtestImpure.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICtestImpure.py
index 9dae5d1..c1b50c4 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICtestImpure.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICtestImpure.py
@@ -8,10 +8,10 @@
 # Copyright:   (c) YY 2021
 # Licence:     <your licence>
 # -------------------------------------------------------------------------------
-import LearningHierarchicalStructure.GIN2 as GIN
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import GIN2 as GIN
 import numpy as np
 import pandas as pd
-import LearningHierarchicalStructure.Paper_simulation as SD
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Paper_simulation as SD
 
 
 def main22():
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
index d67adf0..87730b6 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
@@ -1,4 +1,4 @@
-import LearningHierarchicalStructure.mutual as MI
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import mutual as MI
 import numpy as np
 import pandas as pd
 from sklearn import metrics
-- 
2.43.0


From 398ad28e3445256f8d0e127f637c5167661edf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 39/49] fix: GIN compared the (statistic, p-value) pair with
 alpha and passed alpha as bandwidth method

---
 .../funtional_based/LearningHierarchicalStructure/GIN2.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
index 4f6177b..30e573e 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
@@ -16,7 +16,7 @@ def GIN(X, Z, data, alpha=0.05):
     for i in Z:
         temp = np.array(data[i])
 
-        pvalue = hsic.hsic_test_gamma(result.T, temp, alpha)
+        _, pvalue = hsic.hsic_test_gamma(result.T, temp)
 
         if pvalue > alpha:
             flag = True
-- 
2.43.0


From 499f189790d9e26e4b5ce4538b08f38a30b8cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 40/49] fix: Wishart variance of the tetrad difference was that
 of another tetrad

---
 .../LearningHierarchicalStructure/VanishedTest.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
index a566995..3022b52 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
@@ -58,8 +58,8 @@ def wishartEvalTetradDifference(i, j, k, l):
 def wishartTestTetradDifference(a0, a1, a2, a3):
     data = pd.DataFrame(np.array([a0, a1, a2, a3]).T, columns=['a0', 'a1', 'a2', 'a3'])
     M_cov = data.cov()
-    p1 = np.cov(a0, a0)[0][1] * np.cov(a3, a3)[0][1] - np.cov(a0, a3)[0][1] * np.cov(a0, a3)[0][1]
-    p2 = np.cov(a1, a1)[0][1] * np.cov(a2, a2)[0][1] - np.cov(a1, a2)[0][1] * np.cov(a1, a2)[0][1]
+    p1 = np.cov(a0, a0)[0][1] * np.cov(a1, a1)[0][1] - np.cov(a0, a1)[0][1] * np.cov(a0, a1)[0][1]
+    p2 = np.cov(a2, a2)[0][1] * np.cov(a3, a3)[0][1] - np.cov(a2, a3)[0][1] * np.cov(a2, a3)[0][1]
     n = len(a0)
     product3 = (n + 1) / ((n - 1) * (n - 2)) * p1 * p2
     determinant = np.linalg.det(M_cov)
-- 
2.43.0


From b22fbc82f808163ecf7b4364f3a418400bf2b468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 41/49] fix: UpdataData named the columns of latent surrogates
 and remaining variables the wrong way round

---
 .../funtional_based/LearningHierarchicalStructure/UpdataData.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
index 889b446..042a65c 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
@@ -155,7 +155,7 @@ def UpdataData(Merge_Results, L_index, LatentIndex, data):
 
     updateData = pd.concat([tdata, t2data], axis=1)
 
-    upindexs = list(indexs) + Lname
+    upindexs = Lname + list(indexs)
 
     updateData.columns = upindexs
 
-- 
2.43.0


From e447925f2589acbc6d7c3e473303879b2bf76878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:22 +0000
Subject: [PATCH 42/49] fix: JudgePureCluster tried one of the two tetrads per
 pair of other variables, whichever the set order gave

---
 .../LearningHierarchicalStructure/TetradMethod.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
index c8f1caf..fd278c9 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
@@ -76,7 +76,7 @@ def JudgePureCluster(C, data, alpha=0.01):
     V_j = C[1]
     indexs = list(data.columns)
     indexs = set(indexs) - set(C)
-    for s in itertools.combinations(list(indexs), 2):
+    for s in itertools.permutations(list(indexs), 2):
         V_k = s[0]
         V_s = s[1]
 
-- 
2.43.0


From 9f6caf72085c26863a70896bcf5239b7bb0722b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 43/49] fix: block HSIC test with nullvarmethod='across' took
 the variance of a block statistic unscaled

---
 .../indTest/HSICBlockTestObject.py                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py
index 5173faf..ef78082 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py
@@ -72,7 +72,7 @@ class HSICBlockTestObject(HSICTestObject):
             overall_vary = mean(null_vary)
             BTest_NullVar = 2. * overall_varx * overall_vary
         elif self.nullvarmethod == 'across':
-            BTest_NullVar = var(block_statistics)
+            BTest_NullVar = self.blocksize ** 2 * var(block_statistics)
         # print BTest_NullVar
         Z_score = sqrt(self.num_samples * self.blocksize) * BTest_Statistic / sqrt(BTest_NullVar)
         # print Z_score
-- 
2.43.0


From 4d0ac821c935d5f521bcdf76a34dd07fc63a14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:18 +0000
Subject: [PATCH 44/49] fix: block HSIC test with nullvarmethod='direct'
 doubled the null variance estimates twice

---
 .../indTest/HSICBlockTestObject.py                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py
index ef78082..95a2158 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py
@@ -70,7 +70,7 @@ class HSICBlockTestObject(HSICTestObject):
         elif self.nullvarmethod == 'direct':
             overall_varx = mean(null_varx)
             overall_vary = mean(null_vary)
-            BTest_NullVar = 2. * overall_varx * overall_vary
+            BTest_NullVar = overall_varx * overall_vary / 2.  # each estimate already contains a factor 2
         elif self.nullvarmethod == 'across':
             BTest_NullVar = self.blocksize ** 2 * var(block_statistics)
         # print BTest_NullVar
-- 
2.43.0


From cf5b686256588b0541c7f8afb6c00865d6f02ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:21 +0000
Subject: [PATCH 45/49] fix: Causal_Discovery_LHM never returned when impure
 clusters were all that could be learned

---
 .../LearningHierarchicalStructure/Causal_Discovery_in_LHM.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py
index 941cd6d..422065f 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py
@@ -74,6 +74,11 @@ def Causal_Discovery_LHM(data, alpha=0.01):
                 print('Recursive Procedure Finished ! The structure is identified up to a Markov equivalent class.')
                 print(LatentIndex, ImpureClusters)
                 break
+            elif len(EarlyLearningRemoveClusters) == 0:
+                # the active data would stay the same, so every further round would repeat this one
+                print('Recursive Procedure Finished ! The remaining variables cannot be clustered.')
+                print(LatentIndex, ImpureClusters)
+                break
 
         # Phase III: Introduce latent variable into the graph and update the actived data set
         data, LatentNum, LatentIndex = UpdataData.UpdataData(Merge_Results, LatentNum, LatentIndex, data)
-- 
2.43.0


From 8df90976587e4dd90ee4df0807f0298d01956eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 46/49] fix: plot_graph failed on edges between nodes that are
 not strings

---
 cdmir/visual/plot_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/visual/plot_graph.py b/cdmir/visual/plot_graph.py
index edcb791..7aaf007 100644
--- a/cdmir/visual/plot_graph.py
+++ b/cdmir/visual/plot_graph.py
@@ -29,8 +29,8 @@ def plot_graph(graph, layout, is_latent=None, figsize=None, dpi=300, node_radius
     for edge in graph.edges:
         node_u, node_v, mark_u, mark_v = edge
         plt_edge(ax,
-                 (pos[node_u][0] + center[0], pos[node_u][1] + center[1]),
-                 (pos[node_v][0] + center[0], pos[node_v][1] + center[1]),
+                 (pos[str(node_u)][0] + center[0], pos[str(node_u)][1] + center[1]),
+                 (pos[str(node_v)][0] + center[0], pos[str(node_v)][1] + center[1]),
                  mark_u, mark_v,
                  node_radius=node_radius,
                  circle_mark_radius=edge_circle_mark_radius)
-- 
2.43.0


From e23b415c47e26d63a5979e313061c48ef305c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 47/49] fix: plot_graph drew latent nodes that are not strings
 as measured

---
 cdmir/visual/plot_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/visual/plot_graph.py b/cdmir/visual/plot_graph.py
index 7aaf007..5dcb147 100644
--- a/cdmir/visual/plot_graph.py
+++ b/cdmir/visual/plot_graph.py
@@ -16,11 +16,11 @@ def plot_graph(graph, layout, is_latent=None, figsize=None, dpi=300, node_radius
     pos = layout(graph)
     node_str = [str(node) for node in graph.nodes]
     for i, node in enumerate(graph.nodes):
-        node = str(node)
-        if node in is_latent:
+        if node in is_latent or str(node) in is_latent:
             node_fill_color = 'white'
         else:
             node_fill_color = '0.8'  # light gray
+        node = str(node)
 
         plt_node(ax, (pos[node][0] + center[0], pos[node][1] + center[1]), node_radius=node_radius,
                  node_name=node_str[i], node_fill_color=node_fill_color)
-- 
2.43.0


From a96ec3136cd2fb2336cc35bf80b966647dbb70e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:52 +0000
Subject: [PATCH 48/49] fix: latent hierarchy learning failed on a latent
 merged from impure clusters

---
 .../LearningHierarchicalStructure/UpdataData.py            | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
index 042a65c..a5b3c5b 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
@@ -34,7 +34,12 @@ def roll_back(L, Ora_data, data, LatentIndex, AllCausalCluters, PureClusters):
 
     LMeasured = set(LMeasured) - set(LPure)
 
-    LGPure = set()
+    LGPure = []
+    if len(LPure) < 2:
+        # no pure cluster in L (merged impure clusters): one variable of a learned cluster and one of the others
+        # are general pure
+        S = next((S for S in AllCausalCluters if set(S) < LMeasured), LatentIndex[L][:1])
+        LGPure = [list(S)[0]] + [v for v in LatentIndex[L] if v not in S][:1]
 
     '''
     DEBUG+++++++++
-- 
2.43.0


From 2c27551b02cbfa2e6300b68594de8e29f6bebd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:52 +0000
Subject: [PATCH 49/49] fix: the marginal scores' line search took elementwise
 products for slopes and stopped far from the optimum

---
 cdmir/utils/local_score/score_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cdmir/utils/local_score/score_utils.py b/cdmir/utils/local_score/score_utils.py
index 3b744b6..af0a650 100644
--- a/cdmir/utils/local_score/score_utils.py
+++ b/cdmir/utils/local_score/score_utils.py
@@ -191,7 +191,7 @@ def minimize(X, f, length, *varargin):
     fX = f0
     i = i + (1 if length < 0 else 0)  # count epochs?!
     s = -df0
-    d0 = (-s.T * s)[0, 0]  # initial search direction (steepest) and slope
+    d0 = (-s.T.dot(s))[0, 0]  # initial search direction (steepest) and slope
     x3 = red / (1 - d0)  # initial step is red/(|s|+1)
 
     while i < abs(length):  # while not finished
@@ -230,7 +230,7 @@ def minimize(X, f, length, *varargin):
                 X0 = X + x3 * s  # keep best values
                 F0 = f3
                 dF0 = df3
-            d3 = (df3.T * s)[0, 0]  # new slope
+            d3 = (df3.T.dot(s))[0, 0]  # new slope
             if d3 > SIG * d0 or f3 > f0 + x3 * RHO * d0 or M == 0:  # are we done extrapolating?
                 break
 
@@ -282,20 +282,20 @@ def minimize(X, f, length, *varargin):
                 dF0 = df3
             M = M - 1
             i = i + (1 if length < 0 else 0)  # count epochs?!
-            d3 = (df3.T * s)[0, 0]  # new slope
+            d3 = (df3.T.dot(s))[0, 0]  # new slope
         # end interpolation
 
         if (abs(d3) < -SIG * d0 and f3 < f0 + x3 * RHO * d0):  # if line search succeeded
             X = X + x3 * s
             f0 = f3
             fX = np.vstack([fX, f0])  # update variables
-            s = ((df3.T * df3)[0, 0] - df0.T * df3[0, 0]) / (df0.T * df0)[0, 0] * s - df3  # Polack-Ribiere CG direction
+            s = (df3.T.dot(df3) - df0.T.dot(df3))[0, 0] / df0.T.dot(df0)[0, 0] * s - df3  # Polack-Ribiere CG direction
             df0 = df3  # swap derivatives
             d3 = d0
-            d0 = (df0.T * s)[0, 0]
+            d0 = df0.T.dot(s)[0, 0]
             if (d0 > 0):  # new slope must be negative
                 s = -df0
-                d0 = -(s.T * s)[0, 0]
+                d0 = -s.T.dot(s)[0, 0]
             x3 = x3 * min(RATIO, d3 / (d0 - sys.float_info.min))  # slope ratio but max RATIO
             ls_failed = 0  # this line search did not fail
         else:
@@ -305,7 +305,7 @@ def minimize(X, f, length, *varargin):
             if (ls_failed or i > abs(length)):  # line search failed twice in a row
                 break  # or we ran out of time, so we give up
             s = -df0  # try steepest
-            d0 = -(s.T * s)[0, 0]
+            d0 = -s.T.dot(s)[0, 0]
             x3 = 1 / (1 - d0)
             ls_failed = 1  # this line search failed
     return X, fX, i
-- 
2.43.0

