From 4d7b0c8e21c538b4452c17420146b93ce75503d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 01/52] fix: remove_nodes_from skips nodes when given the
 graph's own node view

---
 cdmir/graph/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/graph/graph.py b/cdmir/graph/graph.py
index fdc1e76..7666b96 100644
--- a/cdmir/graph/graph.py
+++ b/cdmir/graph/graph.py
@@ -92,7 +92,8 @@ class Graph(object):
         self.node_list.remove(node_u)
 
     def remove_nodes_from(self, nodes):
-        tuple(map(self.remove_node, nodes))
+        # The nodes may be a lazy view of this graph, which removals would invalidate.
+        tuple(map(self.remove_node, list(nodes)))
 
     def remove_edge(self, node_u, node_v):
         if not self.is_connected(node_u, node_v):
-- 
2.43.0


From 864bd0bddeef0253c7bb17c5ec3218ad7ec48149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 02/52] fix: d-separation gives wrong answers for a one-shot
 conditioning set and crashes without one

---
 cdmir/graph/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/digraph.py b/cdmir/graph/digraph.py
index 0aff389..151cfa4 100644
--- a/cdmir/graph/digraph.py
+++ b/cdmir/graph/digraph.py
@@ -35,6 +35,9 @@ class DiGraph(Graph):
 
         '''
 
+        # z is traversed several times and may be a one-shot iterable.
+        z = set() if z is None else set(z)
+
         # Phase I: Insert all ancestors of z into a
         node_l_queue = deque(z)
         a = set()
-- 
2.43.0


From 4685fa874775a9218aa4091199500d91f1ff7465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 03/52] fix: Meek rule 3 must require the two parents to be
 non-adjacent

---
 cdmir/graph/pdag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index ea0bac7..5a8d6d1 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -101,6 +101,8 @@ class PDAG(Graph):
                         continue
                     if not (self.is_fully_undirected(node_u, node_x) and self.is_fully_directed(node_x, node_w)):
                         continue
+                    if self.is_connected(node_v, node_x) or not self.is_fully_undirected(node_u, node_w):
+                        continue
                     self.remove_edge(node_u, node_w)
                     self.add_edge(Edge(node_u, node_w, Mark.Tail, Mark.Arrow))
                     if verbose:
-- 
2.43.0


From 9c8c7f7ef8a1aef406418a179f55b2463161a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 04/52] fix: Meek rule 4 must start from a directed chain, not
 an undirected edge

---
 cdmir/graph/pdag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/graph/pdag.py b/cdmir/graph/pdag.py
index 5a8d6d1..00f3c6b 100644
--- a/cdmir/graph/pdag.py
+++ b/cdmir/graph/pdag.py
@@ -118,7 +118,7 @@ class PDAG(Graph):
             for node_v in self.nodes:
                 if node_v in [node_u, node_w]:
                     continue
-                if not (self.is_fully_undirected(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
+                if not (self.is_fully_directed(node_u, node_v) and self.is_fully_directed(node_v, node_w)):
                     continue
                 for node_x in self.nodes:
                     if node_x in [node_u, node_v, node_w]:
-- 
2.43.0


From 422c38ab405f7b8ae1edf9ee0b448c353415301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 05/52] fix: pdag2dag loops forever on a PDAG without a
 consistent extension

---
 cdmir/graph/pdag2dag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/graph/pdag2dag.py b/cdmir/graph/pdag2dag.py
index a674a44..29484fe 100644
--- a/cdmir/graph/pdag2dag.py
+++ b/cdmir/graph/pdag2dag.py
@@ -20,6 +20,7 @@ def pdag2dag(pdag: PDAG):
     pdag_p = deepcopy(pdag)
     inde = np.zeros(pdag_p.number_of_nodes(), dtype=np.dtype(int)) # index whether the ith node has been removed. 1:removed; 0: not
     while 0 in inde:
+        removed_before = inde.sum()
         for i in range(pdag_p.number_of_nodes()):
             if inde[i] == 0:
                 sign = 0
@@ -39,6 +40,8 @@ def pdag2dag(pdag: PDAG):
                         if not pdag_copy.is_connected(nodes[index], nodes[i]):
                             pdag_copy.add_edge(Edge(nodes[index], nodes[i], Mark.Tail, Mark.Arrow), overwrite=False)
                     inde[i] = 1
+        if inde.sum() == removed_before:
+            raise ValueError('The PDAG does not admit a consistent extension.')
 
     d = DiGraph(pdag_copy.node_list)
     for edge in pdag_copy.edges:
-- 
2.43.0


From 859849ef1861f72da4dcd3a97f28b6b9ae77c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 06/52] fix: data form converter rejects positional arguments
 and leaves named DataFrames unconverted

---
 cdmir/utils/adapters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdmir/utils/adapters.py b/cdmir/utils/adapters.py
index 8e5a785..fa7d4db 100644
--- a/cdmir/utils/adapters.py
+++ b/cdmir/utils/adapters.py
@@ -9,11 +9,12 @@ def data_form_converter_for_class_method(func):
         if var_names is None:
             if type(data) == DataFrame:
                 var_names = list(data.columns)
-                data = data.to_numpy()
             else:
                 var_names = [i for i in range(0, n)]
         else:
             assert len(var_names) == n
-        return func(self=self, data=data, var_names=var_names, *args, **kwargs)
+        if type(data) == DataFrame:
+            data = data.to_numpy()
+        return func(self, data, var_names, *args, **kwargs)
 
     return wrapper
-- 
2.43.0


From ca0ab2cb78cd4ee1559f86bc7e2bd3c2341bad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 07/52] fix: independence tests fail without a conditioning set
 or with one that is not a list

---
 cdmir/utils/independence/basic_independence.py | 1 +
 cdmir/utils/independence/dsep.py               | 2 +-
 cdmir/utils/independence/functional/fisherz.py | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdmir/utils/independence/basic_independence.py b/cdmir/utils/independence/basic_independence.py
index c47af65..cafc930 100644
--- a/cdmir/utils/independence/basic_independence.py
+++ b/cdmir/utils/independence/basic_independence.py
@@ -36,6 +36,7 @@ class ConditionalIndependentTest(object):
         return self.itest(x_id, y_id, z_ids)
 
     def itest(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
+        z_ids = list(z_ids) if z_ids is not None else None
         key = _get_cache_key(x_id, y_id, z_ids)
         if self.cache.get(key):
             value = self.cache[key]
diff --git a/cdmir/utils/independence/dsep.py b/cdmir/utils/independence/dsep.py
index e1fdc1c..26875f7 100644
--- a/cdmir/utils/independence/dsep.py
+++ b/cdmir/utils/independence/dsep.py
@@ -11,7 +11,7 @@ class Dsep(ConditionalIndependentTest):
         self.true_graph = true_graph
 
     def cal_stats(self, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-        zs_name = [self.var_names[z_id] for z_id in z_ids]
+        zs_name = [self.var_names[z_id] for z_id in z_ids] if z_ids is not None else []
         if self.true_graph.is_d_separate(self.var_names[x_id], self.var_names[y_id], zs_name):
             return 1.0, 1.0 #相关
         else:
diff --git a/cdmir/utils/independence/functional/fisherz.py b/cdmir/utils/independence/functional/fisherz.py
index 500a6e9..e357a04 100644
--- a/cdmir/utils/independence/functional/fisherz.py
+++ b/cdmir/utils/independence/functional/fisherz.py
@@ -22,7 +22,7 @@ def fisherz(x, y, Z=None):
 
 
 def fisherz_from_corr(corr: ndarray, num_records: int, x_id: int, y_id: int, z_ids: Iterable[int] = None):
-    z_ids = [] if z_ids is None else z_ids
+    z_ids = [] if z_ids is None else list(z_ids)
     var = [x_id, y_id] + z_ids
     sub_corr = corr[ix_(var, var)]
     inv_mat = inv(sub_corr)
-- 
2.43.0


From d96045a47163324aa641c6697bf7fa9764387fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 08/52] fix: kernel cache confuses inputs whose printed forms
 coincide

---
 cdmir/utils/kernel/_base.py    | 14 ++++++++++++--
 cdmir/utils/kernel/gaussian.py |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/kernel/_base.py b/cdmir/utils/kernel/_base.py
index 9721f68..9d4e976 100644
--- a/cdmir/utils/kernel/_base.py
+++ b/cdmir/utils/kernel/_base.py
@@ -1,6 +1,8 @@
 from __future__ import annotations
 
-from numpy import eye, ndarray, shape
+from hashlib import sha256
+
+from numpy import ascontiguousarray, eye, ndarray, shape
 from numpy.linalg import pinv
 
 
@@ -12,8 +14,16 @@ class BaseKernel(object):
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
         return self.__kernel(xs, ys, self.__kernel_func)
 
+    @staticmethod
+    def _content_key(data: ndarray | None):
+        # str(data) elides and rounds entries, so the key is built from the values themselves.
+        if data is None:
+            return None
+        data = ascontiguousarray(data)
+        return data.shape, data.dtype.str, sha256(data.tobytes()).digest()
+
     def __kernel(self, xs: ndarray, ys: ndarray, kernel_func, *args, **kwargs):
-        dict_key = hash(str((xs, ys)))
+        dict_key = (self._content_key(xs), self._content_key(ys))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
diff --git a/cdmir/utils/kernel/gaussian.py b/cdmir/utils/kernel/gaussian.py
index 7640fca..c0677be 100644
--- a/cdmir/utils/kernel/gaussian.py
+++ b/cdmir/utils/kernel/gaussian.py
@@ -30,7 +30,7 @@ class GaussianKernel(BaseKernel):
         if self.width_strategy != self.WidthStrategyEnum.manual:
             self.__update_kernel_width_by_width_strategy(self.width_strategy, xs)
 
-        dict_key = hash(str((xs, ys, self.width)))  # add width to cache
+        dict_key = (self._content_key(xs), self._content_key(ys), self.width)  # add width to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-- 
2.43.0


From 7a9c7ec91b9c4b7e9c27ffa1cb753e769735516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 09/52] fix: polynomial kernel ignores changes of degree and
 const

---
 cdmir/utils/kernel/polynomial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/kernel/polynomial.py b/cdmir/utils/kernel/polynomial.py
index 2848be9..4032e2e 100644
--- a/cdmir/utils/kernel/polynomial.py
+++ b/cdmir/utils/kernel/polynomial.py
@@ -16,14 +16,14 @@ class PolynomialKernel(BaseKernel):
         return pow(self.const + x.dot(y.T), self.degree)#const是加减上的调整，degree是控制多项式的次数
 
     def __kernel(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        dict_key = hash(str((xs, ys, self.degree, self.const)))  # add 'degree' and 'const' to cache
+        dict_key = (self._content_key(xs), self._content_key(ys), self.degree, self.const)  # add 'degree' and 'const' to cache
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-            res = self.__kernel(xs, ys) #Plan B:改成 res = self.__kernel_func(xs,ys)
+            res = self.__kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
         return res
 
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
-        return self._BaseKernel__kernel(xs, ys, self.__kernel_func) #Plan A：把self.__kernel改成return self._BaseKernel__kernel(xs, ys, self.__kernel_func)
+        return self.__kernel(xs, ys)
-- 
2.43.0


From 99ea8fa8d0e86e1cbe6396b93fa8d139749d3717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 10/52] fix: modifying a returned kernel matrix corrupts later
 results

---
 cdmir/utils/kernel/_base.py      | 2 +-
 cdmir/utils/kernel/gaussian.py   | 2 +-
 cdmir/utils/kernel/polynomial.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/kernel/_base.py b/cdmir/utils/kernel/_base.py
index 9d4e976..7b9e641 100644
--- a/cdmir/utils/kernel/_base.py
+++ b/cdmir/utils/kernel/_base.py
@@ -30,7 +30,7 @@ class BaseKernel(object):
             res = kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
-        return res
+        return res.copy()
 
     def __kernel_func(self, data_x: ndarray, data_y: ndarray):
         raise NotImplementedError()
diff --git a/cdmir/utils/kernel/gaussian.py b/cdmir/utils/kernel/gaussian.py
index c0677be..578b050 100644
--- a/cdmir/utils/kernel/gaussian.py
+++ b/cdmir/utils/kernel/gaussian.py
@@ -37,7 +37,7 @@ class GaussianKernel(BaseKernel):
             res = kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
-        return res
+        return res.copy()
 
     def __kernel_func(self, x: ndarray, y: ndarray):
         if y is None:
diff --git a/cdmir/utils/kernel/polynomial.py b/cdmir/utils/kernel/polynomial.py
index 4032e2e..962e115 100644
--- a/cdmir/utils/kernel/polynomial.py
+++ b/cdmir/utils/kernel/polynomial.py
@@ -23,7 +23,7 @@ class PolynomialKernel(BaseKernel):
             res = self.__kernel_func(xs, ys)
             self.cache_dict[dict_key] = res
 
-        return res
+        return res.copy()
 
     def __call__(self, xs: ndarray, ys: ndarray, *args, **kwargs):
         return self.__kernel(xs, ys)
-- 
2.43.0


From 8d4d72bf21f81e8ea28380859ee16c02bcdad3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 11/52] fix: marginal likelihood scores fail building their
 covariance function

---
 cdmir/utils/local_score/marginal_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index 6726105..f0d8ac1 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -58,7 +58,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                 widthPA[m] = np.sqrt(0.5 * np.median(dists[np.where(dists > 0)], axis=1)[0, 0])
             widthPA = widthPA * 2.5  # kernel width
 
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             logtheta0 = np.vstack([np.log(widthPA), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -67,7 +67,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             PA = np.zeros((T, 1))
             logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
@@ -149,7 +149,7 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                 widthPA_all = np.hstack(
                     [widthPA_all, widthPA * np.ones((1, np.size(self.d_label[parent_i[m]])))])
             widthPA_all = widthPA_all * 2.5  # kernel width
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             logtheta0 = np.vstack([np.log(widthPA_all.T), 0, np.log(np.sqrt(0.1))])
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA_all,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
@@ -158,7 +158,7 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                                         2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]),
                                         nargout=2)
         else:
-            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']])
+            covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
             PA = np.zeros((T, 1))
             logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
-- 
2.43.0


From 899e1da96bb145798fb02baee2135bc1609becef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 12/52] fix: general marginal score scores the parents instead
 of the variable

---
 cdmir/utils/local_score/marginal_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index f0d8ac1..c320cdb 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -21,7 +21,7 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
     def _score_function(self, i: int, parent_i: Iterable[int]):
         parent_i = list(parent_i)
         T = self.data.shape[0]
-        X = self.data[:, parent_i]
+        X = self.data[:, i]
 
         # set the kernel for X
         GX = np.sum(np.multiply(X, X), axis=1)
-- 
2.43.0


From 3a6fcc878820996a20108080dece81b41d47fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 13/52] fix: marginal likelihood scores fail for a variable
 without parents

---
 cdmir/utils/local_score/marginal_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cdmir/utils/local_score/marginal_base.py b/cdmir/utils/local_score/marginal_base.py
index c320cdb..772fa17 100644
--- a/cdmir/utils/local_score/marginal_base.py
+++ b/cdmir/utils/local_score/marginal_base.py
@@ -68,8 +68,8 @@ class GeneralMarginalScore(BaseLocalScoreFunction):
                                         nargout=2)
         else:
             covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
-            PA = np.zeros((T, 1))
-            logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
+            PA = asmatrix(np.zeros((T, 1)))
+            logtheta0 = np.array([[100, 0, np.log(np.sqrt(0.1))]]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
 
@@ -159,8 +159,8 @@ class MultiMarginalScore(BaseLocalScoreFunction):
                                         nargout=2)
         else:
             covfunc = np.asarray(['covSum', ['covSEard', 'covNoise']], dtype=object)
-            PA = np.zeros((T, 1))
-            logtheta0 = np.asmatrix([100, 0, np.log(np.sqrt(0.1))]).T
+            PA = asmatrix(np.zeros((T, 1)))
+            logtheta0 = np.array([[100, 0, np.log(np.sqrt(0.1))]]).T
             logtheta, fvals, iter = minimize(logtheta0, 'gpr_multi_new', -300, covfunc, PA,
                                              2 * np.sqrt(T) * eix * np.diag(np.sqrt(eig_Kx)) / np.sqrt(eig_Kx[0]))
 
-- 
2.43.0


From d1d890f96d64182074a776df40e03b4e8427a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 14/52] fix: local scores confuse parent sets given as
 iterators

---
 cdmir/utils/local_score/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/_base.py b/cdmir/utils/local_score/_base.py
index 0c6257d..3f65cdc 100644
--- a/cdmir/utils/local_score/_base.py
+++ b/cdmir/utils/local_score/_base.py
@@ -16,7 +16,9 @@ class BaseLocalScoreFunction(object):
         self.cache_dict = dict()
 
     def _score(self, i: int, parent_i: Iterable[int], score_function):
-        dict_key = hash(str((i, parent_i)))
+        # parent_i may be a one-shot iterable or print like another one (e.g. generators).
+        parent_i = list(parent_i)
+        dict_key = (i, tuple(parent_i))
         if self.cache_dict.__contains__(dict_key):
             res = self.cache_dict[dict_key]
         else:
-- 
2.43.0


From f600a24713feba20126b02f994e6154b6a85c179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 15/52] fix: BDeu score fails for a variable without parents

---
 cdmir/utils/local_score/bdeu_score.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/utils/local_score/bdeu_score.py b/cdmir/utils/local_score/bdeu_score.py
index e08625b..3b8212b 100644
--- a/cdmir/utils/local_score/bdeu_score.py
+++ b/cdmir/utils/local_score/bdeu_score.py
@@ -42,7 +42,8 @@ class BDeuScore(BaseLocalScoreFunction):
         names = ['x{}'.format(var) for var in range(shape(self.data)[1])]
         Data_pd = DataFrame(self.data, columns=names)
         parant_names = ['x{}'.format(var) for var in parent_i]
-        Data_pd_group_Nij = Data_pd.groupby(parant_names)
+        # without parents all the records share one (empty) parent configuration
+        Data_pd_group_Nij = Data_pd.groupby(parant_names if parant_names else [0] * len(Data_pd))
         Nij_map = {key: len(Data_pd_group_Nij.indices.get(key)) for key in Data_pd_group_Nij.indices.keys()}
         Nij_map_keys_list = list(Nij_map.keys())
 
-- 
2.43.0


From 7f7503664d713ac1c2b8bec1cb54cf9171382bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 16/52] fix: Score_G passes node names to the score instead of
 variable indices

---
 cdmir/discovery/score_based/greedy_equivalence_search.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/score_based/greedy_equivalence_search.py b/cdmir/discovery/score_based/greedy_equivalence_search.py
index ce60496..4023c16 100644
--- a/cdmir/discovery/score_based/greedy_equivalence_search.py
+++ b/cdmir/discovery/score_based/greedy_equivalence_search.py
@@ -48,7 +48,7 @@ def Score_G(G, score_func):  # calculate the score for the current G
         PA = []
         for node_v in G.get_neighbours(node):
             if G.is_arrow(node_v, node):
-                PA.append(node_v)
+                PA.append(G.node_list.index(node_v))
 
         delta_score = score_func(i, PA)
         score = score + delta_score
-- 
2.43.0


From 79ae9960a0b1326ab6355d34a4df178a661692b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 17/52] fix: get_performance fails on graph objects

---
 cdmir/utils/metrics/graph_evaluation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cdmir/utils/metrics/graph_evaluation.py b/cdmir/utils/metrics/graph_evaluation.py
index c7556a5..ba280be 100644
--- a/cdmir/utils/metrics/graph_evaluation.py
+++ b/cdmir/utils/metrics/graph_evaluation.py
@@ -4,7 +4,7 @@ import numpy as np
 import pandas as pd
 from sklearn.metrics import f1_score, precision_score, recall_score
 
-from cdmir.graph import Graph, PDAG
+from cdmir.graph import Graph, Mark, PDAG
 
 
 
@@ -75,11 +75,16 @@ def shd(true_pdag: PDAG, est_pdag: PDAG):
     return sum(0 if true_pdag.get_edge(node_u, node_v) == est_pdag.get_edge(node_u, node_v) else 1
                for node_u, node_v in combinations(true_pdag.nodes, 2))
 
+def _adjacency_matrix(graph: Graph):
+    # entry [u, v] is 1 iff the edge between u and v points to v
+    return (graph.to_numpy(transpose=True) == Mark.Arrow).astype(int)
+
+
 def get_performance(fitted, real, threshold=0, drop_diag=True):
     if isinstance(fitted,Graph):
-        fitted=fitted.to_numpy()
+        fitted = _adjacency_matrix(fitted)
     if isinstance(real, Graph):
-        real = real.to_numpy()
+        real = _adjacency_matrix(real)
     fitted = np.abs(fitted)
     if drop_diag:
         fitted = fitted - np.diag(np.diag(fitted))
-- 
2.43.0


From de14d00d13c86ca3866d4b9b8b36cf7c5d9a3d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 18/52] fix: nonlinear simulator ignores the requested function
 type

---
 cdmir/datasets/simlulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 4eb5df8..783f8de 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -211,7 +211,8 @@ class IIDSimulator:  # generate the I.I.D. dataset
         for j in topo_order:
             parents = list(nx_graph.predecessors(j))
             X[:, j] = IIDSimulator._simulate_single_value_nonlinear_anm(n_samples, X[:, parents], noise_type,
-                                                                        scale_vec[j], hidden=hidden)
+                                                                        scale_vec[j], func_type=func_type,
+                                                                        hidden=hidden)
         return X
 
     @staticmethod
-- 
2.43.0


From 5041d8703814740808fb4b8c5e314abc746420c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 19/52] fix: post-nonlinear simulator gives every sample the
 same value

---
 cdmir/datasets/simlulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 783f8de..e0bf17b 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -233,7 +233,7 @@ class IIDSimulator:  # generate the I.I.D. dataset
             noise = _gen_noise([n_samples, hidden], noise_type, noise_scale)
         func1 = _pnl_func_sequential(func1_type, pare_size, hidden, neg_slope, hidden)
         func2 = _pnl_func_sequential(func2_type, hidden, pare_size, neg_slope, hidden)
-        value = np.sum(func2(func1(parents) + noise))
+        value = np.sum(func2(func1(parents) + noise), axis=1)
         return value
 
     @staticmethod
-- 
2.43.0


From 80cac1efc3d9f9e3e9f767d0725740f9a7e3abf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 20/52] fix: post-nonlinear simulators use a linear function
 when cos is requested

---
 cdmir/datasets/simlulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index e0bf17b..dd6ba33 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -23,6 +23,8 @@ def _pnl_func(func_type, d_inputs, d_outputs, neg_slope=0.2):
         return lambda x: utils.leaky_relu(x, neg_slope)
     elif func_type == 'sin':
         return lambda x: np.sin(x)
+    elif func_type == 'cos':
+        return lambda x: np.cos(x)
     else:
         W1 = np.random.uniform(low=0.5, high=2.0, size=[d_inputs, d_outputs])
         W1[np.random.rand(*W1.shape) < 0.5] *= -1
-- 
2.43.0


From 6ecbf8053d299ce5abd99d8713b7f430fbf25494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 21/52] fix: leaky_relu truncates integer inputs and fails on
 empty ones

---
 cdmir/datasets/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cdmir/datasets/utils.py b/cdmir/datasets/utils.py
index f6dfa08..a624e9f 100644
--- a/cdmir/datasets/utils.py
+++ b/cdmir/datasets/utils.py
@@ -29,9 +29,8 @@ def np2nx(np_data, create_using=None):
 
 def leaky_relu(inputs, neg_slope=0.2):
     assert neg_slope > 0
-    leaky_relu_1d = lambda x: x if x > 0 else x * neg_slope
-    leaky1d = np.vectorize(leaky_relu_1d)
-    return leaky1d(inputs)
+    inputs = np.asarray(inputs)
+    return np.where(inputs > 0, inputs, inputs * neg_slope)
 
 
 def _random_permutation(mat):
-- 
2.43.0


From 81651252a7d97fcc79cecccf4aa84f834ddc738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 22/52] fix: random graph generators fail without a seed

---
 cdmir/datasets/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/datasets/utils.py b/cdmir/datasets/utils.py
index a624e9f..0cd4889 100644
--- a/cdmir/datasets/utils.py
+++ b/cdmir/datasets/utils.py
@@ -11,7 +11,7 @@ def set_random_seed(seed, set_torch_seed=True):
     # 设置随机数种子
     np.random.seed(seed)
     random.seed(seed)
-    if set_torch_seed:
+    if set_torch_seed and seed is not None:
         torch.manual_seed(seed)
 
 
-- 
2.43.0


From ac3d24e9f25c5daaf23246040ff1e3d879135919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 23/52] fix: function sequences starting with a non-linear
 layer get the wrong width

---
 cdmir/datasets/simlulators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index dd6ba33..7636604 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -40,7 +40,10 @@ def _pnl_func_sequential(func_type, d_inputs, d_outputs, neg_slope=0.2, hidden=N
             return lambda x: x
         last_linear = (func_type[0] == 'linear' and 'linear' not in func_type[1:])
         hidden = hidden if 'linear' in func_type[1:] else d_outputs
-        layer_d_outputs = d_outputs if last_linear else hidden
+        if func_type[0] == 'linear':
+            layer_d_outputs = d_outputs if last_linear else hidden
+        else:
+            layer_d_outputs = d_inputs  # element-wise functions keep the width
         func = _pnl_func(func_type[0], d_inputs, layer_d_outputs, neg_slope)
         follow_func = _pnl_func_sequential(func_type[1:], layer_d_outputs, d_outputs, neg_slope, hidden)
 
-- 
2.43.0


From fb510aa4afe45dd2b783357627ec658375dc3597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 24/52] fix: nonlinear time series simulator redraws its
 mechanism at every time step

---
 cdmir/datasets/simlulators.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 7636604..84239f2 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -378,19 +378,15 @@ class TimeLagSimulator:  # generate the time series dataset
         return Xt_
 
     @staticmethod
-    def _simulate_single_value_nonlinear_anm(
-            pare_lags, func_type='mlp', hidden=None
-    ):
-        pare_size = pare_lags.shape[1]
-        if pare_size == 0:
-            return 0.0
+    def _nonlinear_anm_func(pare_size, func_type='mlp', hidden=None):
+        # draw the parameters once: the mechanism does not change over time
         if func_type == 'mlp':
             hidden = 100 if hidden is None else hidden
             W1 = np.random.uniform(low=0.5, high=2.0, size=[pare_size, hidden])
             W1[np.random.rand(*W1.shape) < 0.5] *= -1
             W2 = np.random.uniform(low=0.5, high=2.0, size=hidden)
             W2[np.random.rand(hidden) < 0.5] *= -1
-            value = sigmoid(np.sum(pare_lags @ W1, axis=0)) @ W2
+            return lambda pare_lags: sigmoid(np.sum(pare_lags @ W1, axis=0)) @ W2
         elif func_type == 'mim':
             W1 = np.random.uniform(low=0.5, high=2.0, size=pare_size)
             W1[np.random.rand(pare_size) < 0.5] *= -1
@@ -398,22 +394,20 @@ class TimeLagSimulator:  # generate the time series dataset
             W2[np.random.rand(pare_size) < 0.5] *= -1
             W3 = np.random.uniform(low=0.5, high=2.0, size=pare_size)
             W3[np.random.rand(pare_size) < 0.5] *= -1
-            value = np.tanh(np.sum(pare_lags @ W1)) \
-                    + np.cos(np.sum(pare_lags @ W2)) \
-                    + np.sin(np.sum(pare_lags @ W3))
+            return lambda pare_lags: (np.tanh(np.sum(pare_lags @ W1))
+                                      + np.cos(np.sum(pare_lags @ W2))
+                                      + np.sin(np.sum(pare_lags @ W3)))
         else:
             raise ValueError('Unknown function type. The options are follows: mlp or mim. ')
-        return value
 
     @staticmethod
     def _simulate_single_time_nonlinear_anm(
-            n_nodes, value_lags, adj_mats, noise_type='gauss', noise_scale=1.0, func_type='mlp', hidden=None):
+            n_nodes, value_lags, adj_mats, func_series, noise_type='gauss', noise_scale=1.0):
         value_t = np.zeros(n_nodes)
         noise = _gen_noise(n_nodes, noise_type, noise_scale)
 
         for j in range(n_nodes):
-            value_t[j] = TimeLagSimulator._simulate_single_value_nonlinear_anm(
-                np.multiply(value_lags, adj_mats[:, :, j]), func_type, hidden)
+            value_t[j] = func_series[j](np.multiply(value_lags, adj_mats[:, :, j]))
         value_t += noise
         value_lags = np.concatenate((value_lags, value_t[np.newaxis, :]), axis=0)[1:, :]
 
@@ -464,9 +458,11 @@ class TimeLagSimulator:  # generate the time series dataset
         for lag in range(max_lag):
             Xt_.append(X_lags[lag, :])
 
+        func_series = [TimeLagSimulator._nonlinear_anm_func(n_nodes, func_type, hidden) for _ in range(n_nodes)]
+
         for t in range(length):
             X_lags, X_t = TimeLagSimulator._simulate_single_time_nonlinear_anm(
-                n_nodes, X_lags, adj_mats, noise_type, noise_scale, func_type, hidden)
+                n_nodes, X_lags, adj_mats, func_series, noise_type, noise_scale)
             Xt_.append(X_t)
         Xt_ = np.array(Xt_)
 
-- 
2.43.0


From 8f8d2eab995966dbcb8f641341ae17200e439ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 25/52] fix: post-nonlinear time series simulator fails with
 the default length

---
 cdmir/datasets/simlulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 84239f2..866229e 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -515,6 +515,7 @@ class TimeLagSimulator:  # generate the time series dataset
                 assert func_type in func_list
             else:
                 assert set(func_type) <= set(func_list)
+        length = 5000 if length is None else length
         if seed is not None:
             utils.set_random_seed(seed)
         n_nodes = adj_mats.shape[1]
-- 
2.43.0


From d76414a9c511df52e5da129b43b774c1bb7f95f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 26/52] fix: INSEM_data fails when no event occurs

---
 cdmir/datasets/simlulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 866229e..0bb0d8c 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -640,6 +640,7 @@ class HawkesSimulator:  # generate the dataset of the hawkes process
                 term.append([0, t, 1])
             t = t + 1
             df = pd.concat([df, pd.DataFrame(term)])
+        df = df.reindex(columns=range(3))  # there are no columns when no event occurred
         df.columns = ['seq_id', 'time_stamp', 'event_type']
         return df
 
-- 
2.43.0


From 2e630519c9b7d5e2771be4459e58395ab0daa133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 27/52] fix: get_interval_events changes the time stamps of the
 caller's table

---
 cdmir/discovery/point_process/SHP.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 210d699..62f0256 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -13,6 +13,7 @@ __MIN__ = -np.inf
 
 
 def get_interval_events(event_table, time_interval=20):
+    event_table = event_table.copy()
     event_table['time_stamp'] = (event_table['time_stamp'] / time_interval).astype('int') * time_interval
     events = [[event_table[(event_table['event_type'] == i) & (event_table['seq_id'] == j)][
                    'time_stamp'].values.astype('float') for i in
-- 
2.43.0


From 1eafe4bf72882a881e82246504577c01871060a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 28/52] fix: SHP fails with the default time interval

---
 cdmir/discovery/point_process/SHP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index 62f0256..c6514e4 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -196,7 +196,7 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = self.decay_effect_integral_to_T.sum(0)[j] * (self.time_interval or 1)
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
@@ -261,7 +261,7 @@ class SHP(object):
                         q_alpha = alpha[j, i] * self.sum_t_X_kappa[:, j] / lambda_for_i
                         upper = (q_alpha * self.X[:, i]).sum()
 
-                        lower = self.decay_effect_integral_to_T.sum(0)[j] * self.time_interval
+                        lower = self.decay_effect_integral_to_T.sum(0)[j] * (self.time_interval or 1)
                         if lower == 0:
                             alpha[j, i] = 0
                             continue
-- 
2.43.0


From f1c2807fd3da775fe5135a7d11898b2bdb356c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 29/52] fix: SHP fails on fractional time stamps

---
 cdmir/discovery/point_process/SHP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/point_process/SHP.py b/cdmir/discovery/point_process/SHP.py
index c6514e4..49afb04 100644
--- a/cdmir/discovery/point_process/SHP.py
+++ b/cdmir/discovery/point_process/SHP.py
@@ -79,7 +79,7 @@ class SHP(object):
         for seq_id, time_stamp, _, times, type_ind, _ in self.event_table.values:
             if (seq_id, time_stamp) not in X_dict:
                 X_dict[(seq_id, time_stamp)] = [0] * self.n
-            X_dict[(seq_id, time_stamp)][type_ind] = times
+            X_dict[(seq_id, time_stamp)][int(type_ind)] = times
         self.X_df = pd.DataFrame(X_dict).T
 
         self.X = self.X_df.values
-- 
2.43.0


From a625e8b75a739cda230d52b9b2f877a477d984b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 30/52] fix: NOTEARS-MLP modules import their utilities from
 outside the package

---
 .../entropy_based_discovery/nonlinear.py              | 11 ++++++-----
 .../entropy_based_discovery/nonlinear_ent.py          |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
index 098ab48..c6ec2f9 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear.py
@@ -3,7 +3,8 @@ import math
 import numpy as np
 import torch
 import torch.nn as nn
-import utils as utils
+
+from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.lbfgsb_scipy import LBFGSBScipy
 from cdmir.discovery.score_based.entropy_based.entropy_based_discovery.locally_connected import LocallyConnected
 
@@ -215,7 +216,7 @@ def main():
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
     # ut.set_random_seed(123)
 
     """
@@ -286,7 +287,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
     torch.set_default_dtype(torch.double)
     np.set_printoptions(precision=3)
 
-    import utils as ut
+    from . import utils as ut
 
     print("n={}, d={}, s0={}, l1={}, l2={}, graph_type={}, sem_type={}, noise={}, low={}, high={}".
           format(n, d, s0, lambda1, lambda2, graph_type, sem_type, noise_dist, low, high))
@@ -305,7 +306,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
 
 
 def run_real():
-    import utils
+    from . import utils
 
     B_true = utils.readcsv('data/true.csv')
     X = utils.readcsv('data/sachs_unstand.csv')
@@ -326,7 +327,7 @@ def run_real():
 
 
 def run_real_853(lambda1=1e-1, lambda2=1e-1):
-    import utils
+    from . import utils
     print(lambda1, lambda2)
     path = "sachs/continuous/data1.npy"
     X = np.load(path)
diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
index 91dcf18..e0302b4 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/nonlinear_ent.py
@@ -279,7 +279,7 @@ def run(n=200, d=5, s0=10, graph_type='ER', noise_dist='uniform', sem_type='mim'
 
 def run_real_853(lamda1, lamda2):
     print('run 853')
-    import utils
+    from . import utils
     lambda1 = lamda1
     lambda2 = lamda2
     print(lambda1, lambda2)
-- 
2.43.0


From 9b55c9f716df9561028e0cc44e7338bda8c301b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 31/52] fix: locally connected layers cannot be printed

---
 .../entropy_based/entropy_based_discovery/locally_connected.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/locally_connected.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/locally_connected.py
index 43b4037..86540d6 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/locally_connected.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/locally_connected.py
@@ -61,7 +61,7 @@ class LocallyConnected(nn.Module):
         # (Optional)Set the extra information about this module. You can test
         # it by printing an object of this class.
         return 'num_linear={}, in_features={}, out_features={}, bias={}'.format(
-            self.num_linear, self.in_features, self.out_features,
+            self.num_linear, self.input_features, self.output_features,
             self.bias is not None
         )
 
-- 
2.43.0


From 413747b07a00fd90d3fb2987abe85e07c51750d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 32/52] fix: Pade matrix exponential uses a removed torch
 function

---
 .../discovery/score_based/entropy_based/pytorch_expm/expm32.py  | 2 +-
 .../discovery/score_based/entropy_based/pytorch_expm/expm64.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
index b4e0ef5..f4d7408 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
@@ -259,7 +259,7 @@ def _expm(A):
 def _solve_P_Q(U, V):
     P = U + V
     Q = -U + V
-    return torch.solve(P, Q)[0]
+    return torch.linalg.solve(Q, P)
 
 
 def _ell(A, m):
diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
index 2f5e3b2..de48450 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
@@ -289,7 +289,7 @@ def _expm(A):
 def _solve_P_Q(U, V):
     P = U + V
     Q = -U + V
-    return torch.solve(P, Q)[0]
+    return torch.linalg.solve(Q, P)
 
 
 def _ell(A, m):
-- 
2.43.0


From c23225767ca58556ac139a6a83bc762089d93c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 33/52] fix: Pade matrix exponential imports its parts from
 outside the package

---
 .../score_based/entropy_based/pytorch_expm/expm_pade.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
index d36d3d8..b23d1e6 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm_pade.py
@@ -1,8 +1,8 @@
 import numpy as np
 import torch
 
-from expm32 import expm32
-from expm64 import expm64
+from .expm32 import expm32
+from .expm64 import expm64
 
 def differential(A, E, f):
     n = A.size(0)
-- 
2.43.0


From 4eaa7cc5f7564543657bd320ac464e7112c8b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:52 +0000
Subject: [PATCH 34/52] fix: entropy_loss_G1_high_order ignores the scale of
 the residual

---
 .../score_based/entropy_based/entropy_based_discovery/utils.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
index 5ea62e0..e61e3cb 100644
--- a/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
+++ b/cdmir/discovery/score_based/entropy_based/entropy_based_discovery/utils.py
@@ -490,13 +490,13 @@ def entropy_loss_G1(output, input):
 
 def entropy_loss_G1_high_order(output, input):
     residual = input - output
+    variance = torch.var(residual)
     residual = (residual - torch.mean(residual)) / torch.std(residual)
     x_2 = torch.pow(residual, 2)
     x_3 = torch.pow(residual, 3)
     x_4 = torch.pow(residual, 4)
     k_3 = torch.mean(x_3) / torch.pow(torch.mean(x_2), 3. / 2.)
     k_4 = torch.mean(x_4) / torch.pow(torch.mean(x_2), 4. / 2.)
-    variance = torch.var(residual)
     loss = 1 / 2 * torch.log(variance) - 1 / 12 * torch.pow(k_3, 2) - 1 / 48 * torch.pow(k_4, 2) \
            - torch.pow(torch.mean(torch.log(torch.cosh(residual))), 2)
     return loss
-- 
2.43.0


From a5a5a93df97ac457129f1a54cb4f04f71f357598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 35/52] fix: ICA-LiNGAM picks a wrong row permutation when the
 unmixing matrix has zeros

The score multiplied 1/0 off the diagonal by 0, so it was nan and argmin
took that permutation. Only the diagonal enters the score.
---
 cdmir/discovery/funtional_based/lingam_based/ica_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 4783084..0bd3688 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -19,7 +19,7 @@ def find_all_P(n):
 
 def find_W_wave(W):
     P_list = find_all_P(W.shape[0])
-    score = [sum(sum(np.eye(W.shape[0]) * abs(1 / P.dot(W)))) for P in P_list]
+    score = [sum(abs(1 / np.diag(P.dot(W)))) for P in P_list]
     return P_list[np.argmin(score)].dot(W)
 
 
-- 
2.43.0


From 0acc9ca0b83095ac2a45f78e3b3e9c7e51c0c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 36/52] fix: ICA-LiNGAM finds the causal order only if the
 columns already follow it

The search permuted the rows of B but not its columns and the result was
not mapped back to the order of the variables, so edges against the
column order were lost or attributed to other variables.
---
 .../funtional_based/lingam_based/ica_lingam.py         | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 0bd3688..1b74179 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -25,8 +25,9 @@ def find_W_wave(W):
 
 def find_B_wave(B_hat):
     P_list = find_all_P(B_hat.shape[0])
-    score = [sum(np.diag((P.dot(B_hat) * P.dot(B_hat)).dot(np.tri(B_hat.shape[0])))) for P in P_list]
-    return P_list[np.argmin(score)].dot(B_hat)
+    score = [np.sum(np.triu(P.dot(B_hat).dot(P.T)) ** 2) for P in P_list]
+    P = P_list[np.argmin(score)]
+    return P.dot(B_hat).dot(P.T), P
 
 
 def g(x):
@@ -178,13 +179,16 @@ class ICA_LINGAM(object):
         B_hat = np.eye(W_wave_slash.shape[0]) - W_wave_slash
 
         # find B_wave
-        B_wave = find_B_wave(B_hat)
+        B_wave, P = find_B_wave(B_hat)
 
         # prune upper triangle
         for x in range(B_wave.shape[0]):
             for y in range(x, B_wave.shape[1]):
                 B_wave[x, y] = 0
 
+        # back to the order of the variables in data
+        B_wave = P.T.dot(B_wave).dot(P)
+
         # wald test
         B_Prune = wald_prune(data.T, W_wave, B_wave, 0.5)
 
-- 
2.43.0


From 023dfeb8ce5c4c31ef0c466dc6ce083a210edaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 37/52] fix: ICA-LiNGAM ignores wald_alpha

---
 cdmir/discovery/funtional_based/lingam_based/ica_lingam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
index 1b74179..4ffcaaa 100644
--- a/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
+++ b/cdmir/discovery/funtional_based/lingam_based/ica_lingam.py
@@ -190,7 +190,7 @@ class ICA_LINGAM(object):
         B_wave = P.T.dot(B_wave).dot(P)
 
         # wald test
-        B_Prune = wald_prune(data.T, W_wave, B_wave, 0.5)
+        B_Prune = wald_prune(data.T, W_wave, B_wave, self.wald_alpha)
 
         # Linear Regression
         reg_list = {i: B_wave[i, :] != 0 for i in range(B_Prune.shape[0])}
-- 
2.43.0


From 764a113b81da8811feaa1b2d4e65aa008ca6487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 38/52] fix: ANM scores the differences of all pairs of samples
 instead of the residual

Current versions of scikit-learn return a flat array for a single target,
and subtracting the column y from it gave a square matrix.
---
 cdmir/discovery/funtional_based/anm/ANM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/anm/ANM.py b/cdmir/discovery/funtional_based/anm/ANM.py
index 69b4363..7a7db87 100644
--- a/cdmir/discovery/funtional_based/anm/ANM.py
+++ b/cdmir/discovery/funtional_based/anm/ANM.py
@@ -100,7 +100,7 @@ class ANM(object):
 
     def anm_score(self, x, y):
         gp = GaussianProcessRegressor().fit(x, y)
-        y_predict = gp.predict(x)
+        y_predict = gp.predict(x).reshape(-1, 1)
         nonindepscore = normalized_hsic(y_predict - y, x)
 
         return nonindepscore
-- 
2.43.0


From b5e4a47edf5d410ab1357eaa8f7321f8ae0f5a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 39/52] fix: latent hierarchical structure modules import each
 other from outside the package

---
 .../Causal_Discovery_in_LHM.py                       | 12 ++++++------
 .../FindCausalCluster.py                             |  8 ++++----
 .../Infer_Causal_Order.py                            |  2 +-
 .../LearningHierarchicalStructure/MergeCluster.py    |  6 +++---
 .../MergeCluster_backup.py                           |  6 +++---
 .../LearningHierarchicalStructure/Orientation.py     |  6 +++---
 .../LearningHierarchicalStructure/TetradMethod.py    |  4 ++--
 .../LearningHierarchicalStructure/UpdataData.py      |  2 +-
 .../indTest/HSICtestImpure.py                        |  4 ++--
 .../indTest/independence.py                          |  2 +-
 10 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py
index 9fe6664..941cd6d 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Causal_Discovery_in_LHM.py
@@ -1,11 +1,11 @@
-import FindCausalCluster
-import MakeGraph
-import MergeCluster as MC
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import FindCausalCluster
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import MakeGraph
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import MergeCluster as MC
 import numpy as np
-import Orientation
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Orientation
 import pandas as pd
-import UpdataData
-import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import UpdataData
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
 
 
 def Causal_Discovery_LHM(data, alpha=0.01):
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/FindCausalCluster.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/FindCausalCluster.py
index 36ff8f6..f595348 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/FindCausalCluster.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/FindCausalCluster.py
@@ -1,11 +1,11 @@
 import itertools
 
-import MergeCluster
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import MergeCluster
 import numpy as np
-import Overlap_Merge
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Overlap_Merge
 import pandas as pd
-import TetradMethod
-import VanishedTest as VT
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import TetradMethod
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import VanishedTest as VT
 
 
 def FindCausalCluster(data, PureCluster, ImpureCluster, alpha=0.01):
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Infer_Causal_Order.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Infer_Causal_Order.py
index 06330cc..e924aae 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Infer_Causal_Order.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Infer_Causal_Order.py
@@ -1,4 +1,4 @@
-import GIN2 as GIN  # GIN based on mutual information
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import GIN2 as GIN  # GIN based on mutual information
 import numpy as np
 import pandas as pd
 
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster.py
index 0c6b5fa..bcc80cc 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster.py
@@ -2,9 +2,9 @@ import itertools
 
 import numpy as np
 import pandas as pd
-import UpdataData
-import Utils
-import VanishedTest as VT
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import UpdataData
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import VanishedTest as VT
 
 
 def MergeCausalCluster(LearnedClusters, PureClusters, ImpureClusters, AllCausalCluster, GeneralPureClusters,
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster_backup.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster_backup.py
index da31449..9eeb364 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster_backup.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/MergeCluster_backup.py
@@ -2,9 +2,9 @@ import itertools
 
 import numpy as np
 import pandas as pd
-import UpdataData
-import Utils
-import VanishedTest as VT
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import UpdataData
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import VanishedTest as VT
 
 
 def MergeCausalCluster(LearnedClusters, PureClusters, ImpureClusters, AllCausalCluster, GeneralPureClusters,
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Orientation.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Orientation.py
index 584363a..aa92a32 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Orientation.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/Orientation.py
@@ -1,8 +1,8 @@
-import GIN2 as GIN
-import Infer_Causal_Order
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import GIN2 as GIN
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Infer_Causal_Order
 import numpy as np
 import pandas as pd
-import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
 
 
 def Orientation_Cluster(Ora_data, LatentIndex, PureClusters, AllCausalCluster):
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
index e945acc..c8f1caf 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/TetradMethod.py
@@ -12,7 +12,7 @@ import itertools
 
 import numpy as np
 import pandas as pd
-import VanishedTest as VT
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import VanishedTest as VT
 
 '''
 Function: Check whether a variable set C is a causal cluster
@@ -89,7 +89,7 @@ def JudgePureCluster(C, data, alpha=0.01):
     return False
 
 
-import Paper_simulation as SD
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Paper_simulation as SD
 
 
 def main():
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
index 9ab0ea1..889b446 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
@@ -1,6 +1,6 @@
 import numpy as np
 import pandas as pd
-import Utils
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Utils
 
 # roll back the latent variable into their measured varaible set
 '''
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICtestImpure.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICtestImpure.py
index 9dae5d1..c1b50c4 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICtestImpure.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICtestImpure.py
@@ -8,10 +8,10 @@
 # Copyright:   (c) YY 2021
 # Licence:     <your licence>
 # -------------------------------------------------------------------------------
-import LearningHierarchicalStructure.GIN2 as GIN
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import GIN2 as GIN
 import numpy as np
 import pandas as pd
-import LearningHierarchicalStructure.Paper_simulation as SD
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import Paper_simulation as SD
 
 
 def main22():
diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
index d67adf0..87730b6 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/independence.py
@@ -1,4 +1,4 @@
-import LearningHierarchicalStructure.mutual as MI
+from cdmir.discovery.funtional_based.LearningHierarchicalStructure import mutual as MI
 import numpy as np
 import pandas as pd
 from sklearn import metrics
-- 
2.43.0


From d1b276e12582b2c544c35309ef396dee9f7423ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 40/52] fix: UpdataData gives the introduced latent variables
 the names of other columns

---
 .../funtional_based/LearningHierarchicalStructure/UpdataData.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
index 889b446..b56f0f4 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/UpdataData.py
@@ -153,7 +153,7 @@ def UpdataData(Merge_Results, L_index, LatentIndex, data):
 
     t2data = data[list(indexs)]
 
-    updateData = pd.concat([tdata, t2data], axis=1)
+    updateData = pd.concat([t2data, tdata], axis=1)
 
     upindexs = list(indexs) + Lname
 
-- 
2.43.0


From 47fdc1c6776f60e455286610385d5ae50ff27fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 41/52] fix: GIN compares the pair (statistic, p-value) with
 alpha and passes alpha as the bandwidth method

---
 .../funtional_based/LearningHierarchicalStructure/GIN2.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
index 4f6177b..30e573e 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/GIN2.py
@@ -16,7 +16,7 @@ def GIN(X, Z, data, alpha=0.05):
     for i in Z:
         temp = np.array(data[i])
 
-        pvalue = hsic.hsic_test_gamma(result.T, temp, alpha)
+        _, pvalue = hsic.hsic_test_gamma(result.T, temp)
 
         if pvalue > alpha:
             flag = True
-- 
2.43.0


From 1b9a1e04674080d8692adc224a16681dab50bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 42/52] fix: Wishart tetrad test uses the variance of another
 tetrad than the one it tests

---
 .../LearningHierarchicalStructure/VanishedTest.py            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
index a566995..4bc33e7 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/VanishedTest.py
@@ -58,8 +58,9 @@ def wishartEvalTetradDifference(i, j, k, l):
 def wishartTestTetradDifference(a0, a1, a2, a3):
     data = pd.DataFrame(np.array([a0, a1, a2, a3]).T, columns=['a0', 'a1', 'a2', 'a3'])
     M_cov = data.cov()
-    p1 = np.cov(a0, a0)[0][1] * np.cov(a3, a3)[0][1] - np.cov(a0, a3)[0][1] * np.cov(a0, a3)[0][1]
-    p2 = np.cov(a1, a1)[0][1] * np.cov(a2, a2)[0][1] - np.cov(a1, a2)[0][1] * np.cov(a1, a2)[0][1]
+    # the tetrad is the minor with rows (a0, a1) and columns (a2, a3)
+    p1 = np.cov(a0, a0)[0][1] * np.cov(a1, a1)[0][1] - np.cov(a0, a1)[0][1] * np.cov(a0, a1)[0][1]
+    p2 = np.cov(a2, a2)[0][1] * np.cov(a3, a3)[0][1] - np.cov(a2, a3)[0][1] * np.cov(a2, a3)[0][1]
     n = len(a0)
     product3 = (n + 1) / ((n - 1) * (n - 2)) * p1 * p2
     determinant = np.linalg.det(M_cov)
-- 
2.43.0


From 921cec29770ed7c099bbf8594e4c9c6ee8357ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:12 +0000
Subject: [PATCH 43/52] fix: plotting a graph fails for edges between nodes
 that are not strings

---
 cdmir/visual/graph_layout.py | 4 ++--
 cdmir/visual/plot_graph.py   | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/cdmir/visual/graph_layout.py b/cdmir/visual/graph_layout.py
index 111ddc8..1746200 100644
--- a/cdmir/visual/graph_layout.py
+++ b/cdmir/visual/graph_layout.py
@@ -6,12 +6,12 @@ from cdmir.graph import Graph
 
 
 def circular_layout(graph: Graph, scale=0.45, sort_node=False) -> Dict:
-    node_list = [str(node) for node in graph.nodes]
+    node_list = list(graph.nodes)
 
     n = len(node_list)
 
     if sort_node:
-        node_list = sorted(node_list)
+        node_list = sorted(node_list, key=str)
     angle = pi / 2 - linspace(0, 2 * pi, n, endpoint=False)
 
     return {node: (scale * cos(angle[i]), scale * sin(angle[i])) for i, node in enumerate(node_list)}
diff --git a/cdmir/visual/plot_graph.py b/cdmir/visual/plot_graph.py
index edcb791..6fe1b3e 100644
--- a/cdmir/visual/plot_graph.py
+++ b/cdmir/visual/plot_graph.py
@@ -16,8 +16,7 @@ def plot_graph(graph, layout, is_latent=None, figsize=None, dpi=300, node_radius
     pos = layout(graph)
     node_str = [str(node) for node in graph.nodes]
     for i, node in enumerate(graph.nodes):
-        node = str(node)
-        if node in is_latent:
+        if node in is_latent or node_str[i] in is_latent:
             node_fill_color = 'white'
         else:
             node_fill_color = '0.8'  # light gray
-- 
2.43.0


From d848baa9c9a498fa8747c9c05db77df9318e524a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 44/52] fix: simulated null distribution of KCI fails for more
 than 1000 samples

---
 cdmir/utils/independence/kernel_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/utils/independence/kernel_based.py b/cdmir/utils/independence/kernel_based.py
index eadd548..162e7f1 100644
--- a/cdmir/utils/independence/kernel_based.py
+++ b/cdmir/utils/independence/kernel_based.py
@@ -109,7 +109,7 @@ class KCI(BaseConditionalIndependenceTest):
         def null_sample_spectral_from_centralized_kernel_matrix(self, Kxc, Kyc):
             T = Kxc.shape[0]
             if T > 1000:
-                num_eig = np.int(np.floor(T / 2))
+                num_eig = int(np.floor(T / 2))
             else:
                 num_eig = T
             lambdax = eigvalsh(Kxc)
-- 
2.43.0


From 5d1371668df9c837be686d63b3e87fff1c4a0435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:32 +0000
Subject: [PATCH 45/52] fix: event lists of simulated Hawkes data shift when a
 type or sequence has no events

---
 cdmir/datasets/simlulators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cdmir/datasets/simlulators.py b/cdmir/datasets/simlulators.py
index 0bb0d8c..c03cc0c 100644
--- a/cdmir/datasets/simlulators.py
+++ b/cdmir/datasets/simlulators.py
@@ -609,8 +609,7 @@ class HawkesSimulator:  # generate the dataset of the hawkes process
             event_table['time_stamp'] = (event_table['time_stamp'] / time_interval).astype('int') * time_interval
 
         events = [[event_table[(event_table['event_type'] == i) & (event_table['seq_id'] == j)][
-                       'time_stamp'].values.astype('float') for i in
-                   np.sort((event_table['event_type']).unique())] for j in (event_table['seq_id']).unique()]
+                       'time_stamp'].values.astype('float') for i in range(n)] for j in range(NE_num)]
         return event_table, edge_mat, alpha, mu, events
 
     @staticmethod
-- 
2.43.0


From 1fc85b81d5e6c860390d7e6457d3c3334fdac7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 46/52] fix: Pade matrix exponential fails for nilpotent
 matrices

---
 .../discovery/score_based/entropy_based/pytorch_expm/expm32.py | 3 ++-
 .../discovery/score_based/entropy_based/pytorch_expm/expm64.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
index f4d7408..0ca8638 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm32.py
@@ -248,7 +248,8 @@ def _expm(A):
 
     theta_7 = 3.9257248464332842e+000
     eta_3 = max(h.d6_tight, h.d8_loose)
-    s = max(int(np.ceil(np.log2(eta_3 / theta_7))), 0)
+    # Nilpotent matrix: the high powers vanish and no scaling is needed.
+    s = 0 if eta_3 == 0 else max(int(np.ceil(np.log2(eta_3 / theta_7))), 0)
 
     s += _ell(2**-s * h.A, 7)
     U, V = h.pade7_scaled(s)
diff --git a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
index de48450..fab0a00 100644
--- a/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
+++ b/cdmir/discovery/score_based/entropy_based/pytorch_expm/expm64.py
@@ -278,7 +278,8 @@ def _expm(A):
     eta_5 = min(eta_3, eta_4)
     theta_13 = 4.25
 
-    s = max(int(np.ceil(np.log2(eta_5 / theta_13))), 0)
+    # Nilpotent matrix: the high powers vanish and no scaling is needed.
+    s = 0 if eta_5 == 0 else max(int(np.ceil(np.log2(eta_5 / theta_13))), 0)
 
     s += _ell(2**-s * h.A, 13)
     U, V = h.pade13_scaled(s)
-- 
2.43.0


From 01fd75f3efda8ab2e763910ed18c4bfe3d57ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 47/52] fix: marginal likelihood scores stop before the maximum

The conjugate gradient search multiplied gradients element by element, so every slope was that of the first parameter.
---
 cdmir/utils/local_score/score_utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cdmir/utils/local_score/score_utils.py b/cdmir/utils/local_score/score_utils.py
index 3b744b6..c361497 100644
--- a/cdmir/utils/local_score/score_utils.py
+++ b/cdmir/utils/local_score/score_utils.py
@@ -191,7 +191,7 @@ def minimize(X, f, length, *varargin):
     fX = f0
     i = i + (1 if length < 0 else 0)  # count epochs?!
     s = -df0
-    d0 = (-s.T * s)[0, 0]  # initial search direction (steepest) and slope
+    d0 = -s.T.dot(s)[0, 0]  # initial search direction (steepest) and slope
     x3 = red / (1 - d0)  # initial step is red/(|s|+1)
 
     while i < abs(length):  # while not finished
@@ -230,7 +230,7 @@ def minimize(X, f, length, *varargin):
                 X0 = X + x3 * s  # keep best values
                 F0 = f3
                 dF0 = df3
-            d3 = (df3.T * s)[0, 0]  # new slope
+            d3 = df3.T.dot(s)[0, 0]  # new slope
             if d3 > SIG * d0 or f3 > f0 + x3 * RHO * d0 or M == 0:  # are we done extrapolating?
                 break
 
@@ -282,20 +282,20 @@ def minimize(X, f, length, *varargin):
                 dF0 = df3
             M = M - 1
             i = i + (1 if length < 0 else 0)  # count epochs?!
-            d3 = (df3.T * s)[0, 0]  # new slope
+            d3 = df3.T.dot(s)[0, 0]  # new slope
         # end interpolation
 
         if (abs(d3) < -SIG * d0 and f3 < f0 + x3 * RHO * d0):  # if line search succeeded
             X = X + x3 * s
             f0 = f3
             fX = np.vstack([fX, f0])  # update variables
-            s = ((df3.T * df3)[0, 0] - df0.T * df3[0, 0]) / (df0.T * df0)[0, 0] * s - df3  # Polack-Ribiere CG direction
+            s = (df3.T.dot(df3)[0, 0] - df0.T.dot(df3)[0, 0]) / df0.T.dot(df0)[0, 0] * s - df3  # Polack-Ribiere CG direction
             df0 = df3  # swap derivatives
             d3 = d0
-            d0 = (df0.T * s)[0, 0]
+            d0 = df0.T.dot(s)[0, 0]
             if (d0 > 0):  # new slope must be negative
                 s = -df0
-                d0 = -(s.T * s)[0, 0]
+                d0 = -s.T.dot(s)[0, 0]
             x3 = x3 * min(RATIO, d3 / (d0 - sys.float_info.min))  # slope ratio but max RATIO
             ls_failed = 0  # this line search did not fail
         else:
@@ -305,7 +305,7 @@ def minimize(X, f, length, *varargin):
             if (ls_failed or i > abs(length)):  # line search failed twice in a row
                 break  # or we ran out of time, so we give up
             s = -df0  # try steepest
-            d0 = -(s.T * s)[0, 0]
+            d0 = -s.T.dot(s)[0, 0]
             x3 = 1 / (1 - d0)
             ls_failed = 1  # this line search failed
     return X, fX, i
-- 
2.43.0


From 8b6e8d951993e0b6b5426c3da8cd4ddfbdad915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 48/52] fix: HSIC test objects change the kernel matrices and
 cannot freeze data

---
 .../LearningHierarchicalStructure/indTest/HSICTestObject.py   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py
index 21c65ed..2ff7d98 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py
@@ -16,7 +16,6 @@ class HSICTestObject(TestObject):
                  rff=False, num_rfx=None, num_rfy=None, induce_set=False,
                  num_inducex=None, num_inducey=None,
                  streaming=False, freeze_data=False):
-        TestObject.__init__(self, self.__class__.__name__, streaming=streaming, freeze_data=freeze_data)
         self.num_samples = num_samples  # We have same number of samples from X and Y in independence testing
         self.data_generator = data_generator
         self.kernelX = kernelX
@@ -35,6 +34,8 @@ class HSICTestObject(TestObject):
             self.HSICmethod = self.HSIC_with_shuffles_rff
         else:
             self.HSICmethod = self.HSIC_with_shuffles
+        # frozen data are drawn here, which needs the generator and the number of samples
+        TestObject.__init__(self, self.__class__.__name__, streaming=streaming, freeze_data=freeze_data)
 
     def generate_data(self, isConditionalTesting=False):
         if not isConditionalTesting:
@@ -48,6 +49,7 @@ class HSICTestObject(TestObject):
     @staticmethod
     def HSIC_U_statistic(Kx, Ky):
         m = shape(Kx)[0]
+        Kx, Ky = Kx.copy(), Ky.copy()  # the caller's matrices keep their diagonals
         fill_diagonal(Kx, 0.)
         fill_diagonal(Ky, 0.)
         K = np.dot(Kx, Ky)
-- 
2.43.0


From 33def2c28eee7a052d1b05f5ed33a24e6c82978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 49/52] fix: spectral HSIC test compares the unbiased statistic
 with a null distribution of another scale

---
 .../indTest/HSICSpectralTestObject.py                          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py
index c5a2be5..09550b1 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py
@@ -49,5 +49,8 @@ class HSICSpectralTestObject(HSICTestObject):
         # print 'data generating time passed: ', data_generating_time
         hsic_statistic, _, _, _, Mx, My, _ = self.HSICmethod(unbiased=self.unbiased, data_x=data_x, data_y=data_y)
         null_samples = self.get_null_samples_with_spectral_approach(Mx, My)
+        if self.unbiased:
+            # The unbiased statistic is an average, the spectrum is that of the unnormalised kernel matrices.
+            hsic_statistic = hsic_statistic * self.num_samples ** 2
         pvalue = (1 + sum(null_samples > self.num_samples * hsic_statistic)) / float(1 + self.num_nullsims)
         return pvalue, data_generating_time
-- 
2.43.0


From 418a9c4898f63e3e274002607cc8fd9466f0271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 50/52] fix: block HSIC test scales the null variance wrongly
 and cannot use frozen data

---
 .../indTest/HSICBlockTestObject.py                        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py
index 5173faf..8d172cd 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICBlockTestObject.py
@@ -29,6 +29,9 @@ class HSICBlockTestObject(HSICTestObject):
                 data_y = self.data_y
             else:
                 data_generating_time = 0.
+                if self.freeze_data:
+                    data_x = self.data_x
+                    data_y = self.data_y
         else:
             data_generating_time = 0.
         # print 'Total block data generating time passed: ', data_generating_time
@@ -70,9 +73,10 @@ class HSICBlockTestObject(HSICTestObject):
         elif self.nullvarmethod == 'direct':
             overall_varx = mean(null_varx)
             overall_vary = mean(null_vary)
-            BTest_NullVar = 2. * overall_varx * overall_vary
+            # both estimates already carry the factor 2 of the variance
+            BTest_NullVar = overall_varx * overall_vary / 2.
         elif self.nullvarmethod == 'across':
-            BTest_NullVar = var(block_statistics)
+            BTest_NullVar = self.blocksize ** 2 * var(block_statistics)
         # print BTest_NullVar
         Z_score = sqrt(self.num_samples * self.blocksize) * BTest_Statistic / sqrt(BTest_NullVar)
         # print Z_score
-- 
2.43.0


From f1eb8f733bf8b7ad090e11065f7e513dc33425d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:45 +0000
Subject: [PATCH 51/52] fix: spectral HSIC test rescales the unbiased statistic
 of random features, whose spectrum is already normalised

---
 .../indTest/HSICSpectralTestObject.py                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py
index 09550b1..b60350e 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICSpectralTestObject.py
@@ -49,7 +49,7 @@ class HSICSpectralTestObject(HSICTestObject):
         # print 'data generating time passed: ', data_generating_time
         hsic_statistic, _, _, _, Mx, My, _ = self.HSICmethod(unbiased=self.unbiased, data_x=data_x, data_y=data_y)
         null_samples = self.get_null_samples_with_spectral_approach(Mx, My)
-        if self.unbiased:
+        if self.unbiased and not (self.rff | self.induce_set):
             # The unbiased statistic is an average, the spectrum is that of the unnormalised kernel matrices.
             hsic_statistic = hsic_statistic * self.num_samples ** 2
         pvalue = (1 + sum(null_samples > self.num_samples * hsic_statistic)) / float(1 + self.num_nullsims)
-- 
2.43.0


From 161b981bc32caab15b37799251581f29ae5b36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:45 +0000
Subject: [PATCH 52/52] fix: unbiased and block HSIC tests with random features
 call what does not exist

---
 .../indTest/HSICTestObject.py                      | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py
index 2ff7d98..0ee45ec 100644
--- a/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py
+++ b/cdmir/discovery/funtional_based/LearningHierarchicalStructure/indTest/HSICTestObject.py
@@ -72,6 +72,18 @@ class HSICTestObject(TestObject):
         featCov = (phix_c.T).dot(phiy_c) / float(m)
         return np.linalg.norm(featCov) ** 2
 
+    @staticmethod
+    def HSIC_U_statistic_rff(phix, phiy):
+        # HSIC_U_statistic of the kernel matrices phix phix^T and phiy phiy^T, without forming them
+        m = shape(phix)[0]
+        diagx, diagy = np.sum(phix ** 2, axis=1), np.sum(phiy ** 2, axis=1)
+        rowx = phix.dot(np.sum(phix, axis=0)) - diagx
+        rowy = phiy.dot(np.sum(phiy, axis=0)) - diagy
+        first_term = (np.linalg.norm(phix.T.dot(phiy)) ** 2 - diagx.dot(diagy)) / float(m * (m - 3.))
+        second_term = np.sum(rowx) * np.sum(rowy) / float(m * (m - 3.) * (m - 1.) * (m - 2.))
+        third_term = 2. * rowx.dot(rowy) / float(m * (m - 3.) * (m - 2.))
+        return first_term + second_term - third_term
+
     # generalise distance correlation ---- a kernel interpretation
     @staticmethod
     def dCor_HSIC_statistic(Kx, Ky, unbiased=False):
@@ -156,7 +168,7 @@ class HSICTestObject(TestObject):
         return test_statistic, null_samples, nullvarx, nullvary, Kx, Ky, time_passed
 
     def HSIC_with_shuffles_rff(self, data_x=None, data_y=None,
-                               unbiased=True, num_shuffles=0, estimate_nullvar=False):
+                               unbiased=True, num_shuffles=0, estimate_nullvar=False, isBlockHSIC=False):
         start = time.perf_counter()
         if data_x is None:
             data_x = self.data_x
-- 
2.43.0

