From cbc31fa7ce2810d2b94a86f437288d7dbcb038ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 01/12] fix: join tree of a disconnected network (IndexError or
 endless loop)

---
 causalnex/ebaybbn/bbn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index ee53e5c..bc940f0 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -988,8 +988,7 @@ def build_join_tree(dag, clique_priority_func=priority_func):
     # Initialize the SepSets
     S = set()  # track the sepsets
     for X, Y in combinations(cliques, 2):
-        if X.nodes.intersection(Y.nodes):
-            S.add(SepSet(X, Y))
+        S.add(SepSet(X, Y))
     sepsets_inserted = 0
     while sepsets_inserted < (len(cliques) - 1):
         # Adding in name to make this sort deterministic
-- 
2.43.0


From 0652194bef97154f944334a62b219a62d0f378f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 02/12] fix: endless loop in get_original_factors on factors
 that form no BBN

---
 causalnex/ebaybbn/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/causalnex/ebaybbn/utils.py b/causalnex/ebaybbn/utils.py
index 16265f0..2deff14 100644
--- a/causalnex/ebaybbn/utils.py
+++ b/causalnex/ebaybbn/utils.py
@@ -38,6 +38,8 @@
 """Some Useful Helper Functions"""
 import inspect
 
+from .exceptions import InvalidGraphException
+
 # TODO: Find a better location for get_args
 
 
@@ -86,9 +88,14 @@ def get_original_factors(factors):
     """
     original_factors = dict()
     while len(original_factors) < len(factors):
+        n_accounted = len(original_factors)
         for factor in factors:
             args = get_args(factor)
             unaccounted_args = [a for a in args if a not in original_factors]
             if len(unaccounted_args) == 1:
                 original_factors[unaccounted_args[0]] = factor
+        if len(original_factors) == n_accounted:
+            raise InvalidGraphException(
+                "Factors do not each introduce exactly one variable of an acyclic graph"
+            )
     return original_factors
-- 
2.43.0


From 9a3e0d57774c5160f3d6fac5288871a5ff22231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 03/12] fix: draw_samples indexed past the last state when
 rounding left mass below the draw

---
 causalnex/ebaybbn/bbn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index bc940f0..d1bb18b 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -180,7 +180,7 @@ class BBN:
                     cumulative_density.append((key, cumulative_density[-1][1] + mass))
                 r = random()
                 i = 0
-                while r > cumulative_density[i][1]:
+                while i < len(cumulative_density) - 1 and r > cumulative_density[i][1]:
                     i += 1
                 sample[next_node.variable_name] = cumulative_density[i][0][1]
             samples.append(sample)
-- 
2.43.0


From e1b04460768b33e2f9d37a94df2a6010460d516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 04/12] fix: do_intervention failed on non-integer states

---
 causalnex/inference/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index a1dd46e..263d5e2 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -207,7 +207,7 @@ class InferenceEngine:
                 "Do calculus cannot be applied because it would result in an isolate"
             )
 
-        if isinstance(state, int):
+        if not isinstance(state, dict):
             state = {s: float(s == state) for s in self._cpds[node]}
 
         self._do(node, state)
-- 
2.43.0


From fd8e231b85d590bb612fa52e26b5c3d98e193778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 05/12] fix: predictions from incomplete data were reported by
 state index instead of state

---
 causalnex/network/network.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 154e363..8b4aca4 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -32,7 +32,6 @@ This module contains the implementation of ``BayesianNetwork``.
 describing causal relationships between variables and their distribution in a factorised way.
 """
 
-import re
 from copy import deepcopy
 from typing import Dict, Hashable, List, Set, Tuple
 
@@ -485,6 +484,10 @@ class BayesianNetwork:
 
         predictions = self._model.predict(transformed_data)[[node]]
 
+        # pgmpy predicts state indices, so map them back to states
+        index_to_state = {i: state for state, i in self._node_states[node].items()}
+        predictions = predictions.apply(lambda column: column.map(index_to_state))
+
         return predictions.rename(columns={node: node + "_prediction"})
 
     def predict_probability(self, data: pd.DataFrame, node: str) -> pd.DataFrame:
@@ -570,13 +573,11 @@ class BayesianNetwork:
         )  # type: pd.DataFrame
 
         # keep only probabilities for the node we are interested in
-        cols = []
-        pattern = re.compile("^{node}_[0-9]+$".format(node=node))
-        # disabled open pylint issue (https://github.com/PyCQA/pylint/issues/2962)
-        for col in probability.columns:
-            if pattern.match(col):
-                cols.append(col)
-        probability = probability[cols]
-        probability.columns = cols
+        # pgmpy names the columns {node}_{index of state}, so map them back to states
+        states = self._node_states[node]
+        probability = probability[
+            ["{n}_{i}".format(n=node, i=index) for index in states.values()]
+        ]
+        probability.columns = ["{n}_{s}".format(n=node, s=state) for state in states]
 
         return probability
-- 
2.43.0


From 9a5c754f32858faa061f262960c75da137b80572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 06/12] fix: roc_auc paired prediction columns with the wrong
 ground truth states

---
 causalnex/evaluation/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 172a7ad..160048e 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -99,9 +99,10 @@ def roc_auc(
     ground_truth = _build_ground_truth(bn, data, node)
     predictions = bn.predict_probability(data, node)
 
-    # update column names to match those of ground_truth
-    predictions.rename(columns=lambda x: x.lstrip(node + "_"), inplace=True)
-    predictions = predictions[sorted(predictions.columns)]
+    # order columns to match those of ground_truth
+    predictions = predictions[
+        ["{n}_{s}".format(n=node, s=state) for state in ground_truth.columns]
+    ]
 
     fpr, tpr, _ = metrics.roc_curve(
         ground_truth.values.ravel(), predictions.values.ravel()
-- 
2.43.0


From ce3f665680ecba63970fbf3aed0ba6490b5bb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:10 +0000
Subject: [PATCH 07/12] fix: unknown weight distribution error named the
 intercept distribution

---
 causalnex/structure/data_generators/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index 384dc2e..3e7f15c 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -552,7 +552,7 @@ def _create_weight_matrix(
                 )
             else:
                 _raise_dist_error(
-                    "weight", intercept_distribution, ["uniform", "gaussian", "normal"]
+                    "weight", weight_distribution, ["uniform", "gaussian", "normal"]
                 )
 
         else:
-- 
2.43.0


From 2f39f88ea67433624b580035d86c311bfc878f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 08/12] fix: order lagged columns of generate_dataframe_dynamic
 by lag

The lagged data are laid out one lag after the other, but the adjacency rows and
the column names were in alphabetical order (variable by variable). With more
than one lag, columns held the past of other variables and the weights of the
inter-slice edges were applied to the wrong ones.
---
 causalnex/structure/data_generators/wrappers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 94ba092..9c55280 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -548,7 +548,11 @@ def generate_dataframe_dynamic(  # pylint: disable=R0914
             )
         )
     intra_nodes = sorted(el for el in g.nodes if "_lag0" in el)
-    inter_nodes = sorted(el for el in g.nodes if "_lag0" not in el)
+    # by lag first, which is the order of the blocks of the lagged data
+    inter_nodes = sorted(
+        (el for el in g.nodes if "_lag0" not in el),
+        key=lambda el: (int(el.rsplit("_lag", 1)[1]), el),
+    )
     w_mat = nx.to_numpy_array(g, nodelist=intra_nodes)
     a_mat = nx.to_numpy_array(g, nodelist=intra_nodes + inter_nodes)[
         len(intra_nodes) :, : len(intra_nodes)
-- 
2.43.0


From 4e8fc0c7b53c44fba48a4794f0b01bcb45383620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 09/12] fix: DAG estimators truncated standardized integer data
 on predict

np.asarray keeps an integer dtype, and assigning the standardized values into
such an array drops their fractions, so predict saw other data than fit did.
---
 causalnex/structure/pytorch/sklearn/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 3c86528..9c38d3e 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -261,7 +261,8 @@ class DAGBase(
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize:
-            X = X.copy()
+            # a copy that can hold the standardized values (integer arrays would truncate them)
+            X = X.astype(float)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
                 X[:, self.continuous_col_idxs]
             )
-- 
2.43.0


From d9e0fd94843d31804043eeef276b0f6cf713d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 10/12] fix: NotearsMLP without bounds (the default) failed to
 fit

---
 causalnex/structure/pytorch/core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/causalnex/structure/pytorch/core.py b/causalnex/structure/pytorch/core.py
index ec616d7..ddee1fd 100644
--- a/causalnex/structure/pytorch/core.py
+++ b/causalnex/structure/pytorch/core.py
@@ -310,9 +310,8 @@ class NotearsMLP(nn.Module, BaseEstimator):
             """
             bounds = []
             for p in params:
-                try:
-                    b = p.bounds
-                except AttributeError:
+                b = getattr(p, "bounds", None)
+                if b is None:
                     b = [(None, None)] * p.numel()
                 bounds += b
             return bounds
-- 
2.43.0


From 627f4f5239b3bd87942c156ba838025f8b716ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 11/12] fix: a colour gradient could miss its end colour by one
 through rounding

---
 causalnex/plots/plots.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 9cf72ca..24a3ef8 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -171,12 +171,14 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
         int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
     ]
 
-    delta_colors = [(t - f) / steps for f, t in zip(from_colors, to_colors)]
-
+    # integer arithmetic, so that the last color is exactly to_color
     gradient_colors = [
         "#"
         + "".join(
-            [format(int(f + d * i), "02x") for f, d in zip(from_colors, delta_colors)]
+            [
+                format((f * steps + (t - f) * i) // steps, "02x")
+                for f, t in zip(from_colors, to_colors)
+            ]
         )
         for i in range(steps + 1)
     ]
-- 
2.43.0


From 243306e8cdb93f7b2bf9836448c2c768c1c22414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 12/12] fix: colours without alpha became fully transparent in
 gradients

---
 causalnex/plots/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 24a3ef8..7eb2c08 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -165,10 +165,10 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
     )
 
     from_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(from_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(from_color).groups()[1:]
     ]
     to_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(to_color).groups()[1:]
     ]
 
     # integer arithmetic, so that the last color is exactly to_color
-- 
2.43.0

