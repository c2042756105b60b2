From 7082b22260cd4b829d073cc88d297a7732a6cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 01/33] fix: build the join tree of a disconnected network (it
 crashed or never returned)

---
 causalnex/ebaybbn/bbn.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index ee53e5c..fd66f3d 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -995,7 +995,6 @@ def build_join_tree(dag, clique_priority_func=priority_func):
         # Adding in name to make this sort deterministic
         deco = [(s, -1 * s.mass, s.cost, s.__repr__()) for s in S]
         deco.sort(key=lambda x: x[1:])
-        candidate_sepset = deco[0][0]
         for candidate_sepset, _, _, _ in deco:
             if candidate_sepset.insertable(forest):
                 # Insert into forest and remove the sepset
@@ -1003,6 +1002,14 @@ def build_join_tree(dag, clique_priority_func=priority_func):
                 S.remove(candidate_sepset)
                 sepsets_inserted += 1
                 break
+        else:
+            # The dag is disconnected, so the trees left in the forest
+            # have no variable in common: join them by empty sepsets.
+            S = {
+                SepSet(X, Y)
+                for X, Y in combinations(cliques, 2)
+                if not X.nodes.intersection(Y.nodes)
+            }
 
     assert len(forest) == 1
     jt = list(forest)[0]
-- 
2.43.0


From a34e0411e728bf36e9bca51b2d6dd252b400a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 02/33] fix: copy graphs without recursion so that networks of
 more than about 160 chained nodes can be queried

---
 causalnex/ebaybbn/bbn.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index fd66f3d..0bc3811 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -841,10 +841,20 @@ def make_undirected_copy(dag):
     return g
 
 
+def copy_undirected_graph(graph):
+    """Returns a copy of the undirected graph with nodes of its own.
+    (copy.deepcopy recurses once per node along a path
+    so cannot be used on large graphs)."""
+    nodes = {node: copy.copy(node) for node in graph.nodes}
+    for node in nodes.values():
+        node.neighbours = [nodes[neighbour] for neighbour in node.neighbours]
+    return UndirectedGraph(list(nodes.values()), graph.name)
+
+
 def make_moralized_copy(gu, dag):
     """gu is an undirected graph being
     a copy of dag."""
-    gm = copy.deepcopy(gu)
+    gm = copy_undirected_graph(gu)
     gm_nodes = dict([(node.name, node) for node in gm.nodes])
     for node in dag.nodes:
         for parent_1, parent_2 in combinations(node.parents, 2):
@@ -902,7 +912,7 @@ def triangulate(gm, priority_func=priority_func):
     graph as well as the elimination ordering."""
 
     # First we will make a copy of gm...
-    gm_ = copy.deepcopy(gm)
+    gm_ = copy_undirected_graph(gm)
 
     # Now we will construct a priority q using
     # the standard library heapq module.
-- 
2.43.0


From 3b55ce683ab4b46788e587af29b4ddfc340f6800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 03/33] fix: keep the identity of domain values in sepset
 potentials (deep-copied keys were not found again)

---
 causalnex/ebaybbn/bbn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 0bc3811..16a98e6 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -562,7 +562,7 @@ class JoinTreeCliqueNode(UndirectedNode):
         # ToDO test and check this function
         # Todo check on the old sepset potentials and when they will be set
 
-        sepset_node.potential_tt_old = copy.deepcopy(sepset_node.potential_tt)
+        sepset_node.potential_tt_old = copy.copy(sepset_node.potential_tt)
         tt = defaultdict(float)
         for k, v in self.potential_tt.items():
             entry = transform(k, self.variable_names, sepset_node.variable_names)
-- 
2.43.0


From d32517c5422f031f6fd1c5dc06a035ee3b824a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 04/33] fix: raise InvalidGraphException for factors that are
 not a BBN (get_original_factors never returned)

---
 causalnex/ebaybbn/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/causalnex/ebaybbn/utils.py b/causalnex/ebaybbn/utils.py
index 16265f0..7b2b11b 100644
--- a/causalnex/ebaybbn/utils.py
+++ b/causalnex/ebaybbn/utils.py
@@ -38,6 +38,8 @@
 """Some Useful Helper Functions"""
 import inspect
 
+from .exceptions import InvalidGraphException
+
 # TODO: Find a better location for get_args
 
 
@@ -86,9 +88,15 @@ def get_original_factors(factors):
     """
     original_factors = dict()
     while len(original_factors) < len(factors):
+        found = len(original_factors)
         for factor in factors:
             args = get_args(factor)
             unaccounted_args = [a for a in args if a not in original_factors]
             if len(unaccounted_args) == 1:
                 original_factors[unaccounted_args[0]] = factor
+        if len(original_factors) == found:
+            raise InvalidGraphException(
+                "The factors do not represent a BBN: each must introduce exactly one "
+                "variable, given parents which other factors introduce without a cycle"
+            )
     return original_factors
-- 
2.43.0


From 73bccfb0e19b0f811cdf64af3adf2c89047c0137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 05/33] fix: draw_samples validates its query, and never draws
 an impossible value or runs past the last one

---
 causalnex/ebaybbn/bbn.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 16a98e6..8d18904 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -45,7 +45,11 @@ from io import StringIO
 from itertools import combinations, product
 from random import choice, random
 
-from .exceptions import VariableNotInGraphError, VariableValueNotInDomainError
+from .exceptions import (
+    InvalidSampleException,
+    VariableNotInGraphError,
+    VariableValueNotInDomainError,
+)
 from .graph import Node, UndirectedGraph, UndirectedNode, connect
 from .utils import get_args, get_original_factors
 
@@ -157,6 +161,7 @@ class BBN:
     def draw_samples(self, query={}, n=1):
         """query is a dict of currently evidenced
         variables and is none by default."""
+        self.validate_keyvals(**query)
         samples = []
         result_cache = dict()
         # We need to add evidence variables to the sample...
@@ -173,14 +178,19 @@ class BBN:
                 var_density = [
                     r
                     for r in list(result.items())
-                    if r[0][0] == next_node.variable_name
+                    if r[0][0] == next_node.variable_name and r[1] > 0
                 ]
+                if not var_density:
+                    raise InvalidSampleException(
+                        "No sample agrees with the query: its probability is 0"
+                    )
                 cumulative_density = var_density[:1]
                 for key, mass in var_density[1:]:
                     cumulative_density.append((key, cumulative_density[-1][1] + mass))
                 r = random()
                 i = 0
-                while r > cumulative_density[i][1]:
+                # By rounding, the total can be less than r
+                while i < len(cumulative_density) - 1 and r > cumulative_density[i][1]:
                     i += 1
                 sample[next_node.variable_name] = cumulative_density[i][0][1]
             samples.append(sample)
-- 
2.43.0


From 5026ef91c626bacc036271217e4fda9cf2c62888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 06/33] fix: from_numpy_dynamic raises the documented
 ValueError when X has no columns (it divided by zero)

---
 causalnex/structure/dynotears.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causalnex/structure/dynotears.py b/causalnex/structure/dynotears.py
index 3e6d66b..10b015b 100644
--- a/causalnex/structure/dynotears.py
+++ b/causalnex/structure/dynotears.py
@@ -211,6 +211,9 @@ def from_numpy_dynamic(  # pylint: disable=too-many-arguments
     Raises:
         ValueError: If X or Xlags does not contain data, or dimensions of X and Xlags do not conform
     """
+    if X.size == 0:
+        raise ValueError("Input data X is empty, cannot learn any structure")
+
     _, d_vars = X.shape
     p_orders = Xlags.shape[1] // d_vars
 
-- 
2.43.0


From 96755a6752f8b4e9c018af214c5ed96eb2ae5141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 07/33] fix: Discretiser.fit on narrow integer types (the range
 of the data overflowed, and split points fell outside of it)

---
 causalnex/discretiser/discretiser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/discretiser/discretiser.py b/causalnex/discretiser/discretiser.py
index c3e26f8..4ac7be8 100644
--- a/causalnex/discretiser/discretiser.py
+++ b/causalnex/discretiser/discretiser.py
@@ -170,7 +170,8 @@ class Discretiser(BaseEstimator, TransformerMixin):
             RuntimeError: If an attempt to fit fixed numeric_split_points is made.
         """
 
-        x = data.flatten()
+        # differences between values may not fit in the (integer) type of the data
+        x = data.flatten().astype(float)
         x.sort()
 
         if self.method == "uniform":
-- 
2.43.0


From 218177110cfe205f2ef191151908abb4f335d2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 08/33] fix: do_intervention accepts any hashable state and
 probabilities that sum to 1 up to rounding (a state that is not an int
 crashed)

---
 causalnex/inference/inference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index a1dd46e..376b261 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -33,6 +33,7 @@ This module contains the implementation of ``InferenceEngine``.
 
 import copy
 import inspect
+import math
 import re
 import types
 from typing import Callable, Dict, Hashable, Tuple, Union
@@ -160,7 +161,7 @@ class InferenceEngine:
             ValueError: if states do not match original states of the node, or probabilities do not sum to 1.
         """
 
-        if sum(state.values()) != 1.0:
+        if not math.isclose(sum(state.values()), 1.0):
             raise ValueError("The cpd for the provided observation must sum to 1")
 
         if max(state.values()) > 1.0 or min(state.values()) < 0:
@@ -207,7 +208,7 @@ class InferenceEngine:
                 "Do calculus cannot be applied because it would result in an isolate"
             )
 
-        if isinstance(state, int):
+        if not isinstance(state, dict):
             state = {s: float(s == state) for s in self._cpds[node]}
 
         self._do(node, state)
-- 
2.43.0


From b1b3bc8af9f3d4eaabaa194e64fff6894118efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:16 +0000
Subject: [PATCH 09/33] fix: predictions from incomplete data are in terms of a
 node's states (they were internal state indices), and do not need the node's
 own column

---
 causalnex/network/network.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 154e363..3b29ed3 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -32,7 +32,6 @@ This module contains the implementation of ``BayesianNetwork``.
 describing causal relationships between variables and their distribution in a factorised way.
 """
 
-import re
 from copy import deepcopy
 from typing import Dict, Hashable, List, Set, Tuple
 
@@ -481,10 +480,14 @@ class BayesianNetwork:
         # transformed_data.is_copy()
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         predictions = self._model.predict(transformed_data)[[node]]
 
+        # pgmpy predicts the index of each state, so convert idx -> state
+        index_to_state = {idx: s for s, idx in self._node_states[node].items()}
+        predictions = predictions.applymap(index_to_state.get)
+
         return predictions.rename(columns={node: node + "_prediction"})
 
     def predict_probability(self, data: pd.DataFrame, node: str) -> pd.DataFrame:
@@ -563,20 +566,17 @@ class BayesianNetwork:
         self._state_to_index(transformed_data)
 
         # pgmpy will predict all missing data, so drop column we want to predict
-        transformed_data = transformed_data.drop(columns=[node])
+        transformed_data = transformed_data.drop(columns=[node], errors="ignore")
 
         probability = self._model.predict_probability(
             transformed_data
         )  # type: pd.DataFrame
 
-        # keep only probabilities for the node we are interested in
-        cols = []
-        pattern = re.compile("^{node}_[0-9]+$".format(node=node))
-        # disabled open pylint issue (https://github.com/PyCQA/pylint/issues/2962)
-        for col in probability.columns:
-            if pattern.match(col):
-                cols.append(col)
-        probability = probability[cols]
-        probability.columns = cols
+        # keep only probabilities for the node we are interested in, and convert idx -> state
+        states = self._node_states[node]
+        probability = probability[
+            ["{n}_{i}".format(n=node, i=idx) for idx in states.values()]
+        ]
+        probability.columns = ["{n}_{s}".format(n=node, s=state) for state in states]
 
         return probability
-- 
2.43.0


From bf4292c1eb97a5e76528ffc87c41af7a45397f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:27 +0000
Subject: [PATCH 10/33] fix: roc_auc pairs each predicted probability with the
 truth of the same state (columns were sorted as strings, after characters of
 the node's name were stripped from them)

---
 causalnex/evaluation/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index 172a7ad..e5580ae 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -99,9 +99,10 @@ def roc_auc(
     ground_truth = _build_ground_truth(bn, data, node)
     predictions = bn.predict_probability(data, node)
 
-    # update column names to match those of ground_truth
-    predictions.rename(columns=lambda x: x.lstrip(node + "_"), inplace=True)
-    predictions = predictions[sorted(predictions.columns)]
+    # order columns to match those of ground_truth
+    predictions = predictions[
+        ["{n}_{s}".format(n=node, s=state) for state in sorted(bn.node_states[node])]
+    ]
 
     fpr, tpr, _ = metrics.roc_curve(
         ground_truth.values.ravel(), predictions.values.ravel()
-- 
2.43.0


From 1b13921a945621c577602ef9ecfbf256e247e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:36 +0000
Subject: [PATCH 11/33] fix: InferenceEngine for networks with a node whose
 name starts with a digit (accepted by its check of names, but not a valid
 parameter)

---
 causalnex/inference/inference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causalnex/inference/inference.py b/causalnex/inference/inference.py
index 376b261..974da9a 100644
--- a/causalnex/inference/inference.py
+++ b/causalnex/inference/inference.py
@@ -316,6 +316,8 @@ class InferenceEngine:
             code.co_cellvars,
         )
         template.__name__ = name
+        # names that are valid for a node are not all valid for a Python parameter, so spare inspection
+        template.argspec = list(args)
 
         return template
 
-- 
2.43.0


From 13f411168f845eb917611faa2731e2edd8bf9106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:31 +0000
Subject: [PATCH 12/33] fix: roc_auc for a node with boolean states (its list
 of columns was taken as a mask of rows)

---
 causalnex/evaluation/evaluation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/evaluation/evaluation.py b/causalnex/evaluation/evaluation.py
index e5580ae..9f4d898 100644
--- a/causalnex/evaluation/evaluation.py
+++ b/causalnex/evaluation/evaluation.py
@@ -46,8 +46,8 @@ def _build_ground_truth(
         if dummy not in ground_truth.columns:
             ground_truth[dummy] = [0 for _ in range(len(ground_truth))]
 
-    # update ground truth column names to be correct, since we may have added missing columns
-    return ground_truth[sorted(ground_truth.columns)]
+    # sort the columns, since we may have added missing ones (by reindex, as a list of booleans would be taken as a mask)
+    return ground_truth.reindex(columns=sorted(ground_truth.columns))
 
 
 def roc_auc(
-- 
2.43.0


From 8a5ff8730c33e5416f5b45245386bdf68d52f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 13/33] fix: data generators raise the documented ValueError
 for a noise distribution that is not one of the variable's type (and for a
 zero-inflation of NaN)

---
 causalnex/structure/data_generators/core.py | 33 +++++++++------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index 384dc2e..c0d044a 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -335,13 +335,10 @@ def _add_continuous_noise(
     n_samples = mean.shape[0]
 
     # try and get the requested distribution from the mapper
-    distribution_func = __distribution_mapper.get(distribution, None)
-    if distribution_func is None:
-        _raise_dist_error(
-            "continuous",
-            distribution,
-            ["gaussian", "normal", "student-t", "exponential", "gumbel"],
-        )
+    dist_options = ["gaussian", "normal", "student-t", "exponential", "gumbel"]
+    if distribution not in dist_options:
+        _raise_dist_error("continuous", distribution, dist_options)
+    distribution_func = __distribution_mapper[distribution]
 
     # add noise to mean
     mean += _handle_distribution_sampling(
@@ -365,9 +362,10 @@ def _sample_binary_from_latent(
     n_samples = latent_mean.shape[0]
 
     # try and get the requested distribution from the mapper
-    distribution_func = __distribution_mapper.get(distribution, None)
-    if distribution_func is None:
-        _raise_dist_error("binary", distribution, ["logit", "probit", "normal"])
+    dist_options = ["logit", "probit", "normal"]
+    if distribution not in dist_options:
+        _raise_dist_error("binary", distribution, dist_options)
+    distribution_func = __distribution_mapper[distribution]
 
     # add noise to mean
     latent_mean += _handle_distribution_sampling(
@@ -400,10 +398,8 @@ def _sample_count_from_latent(
     Raises:
         ValueError: Unsupported zero-inflation factor.
     """
-    if (
-        not isinstance(zero_inflation_pct, (float, int))
-        or zero_inflation_pct < 0
-        or zero_inflation_pct > 1
+    if not (
+        isinstance(zero_inflation_pct, (float, int)) and 0 <= zero_inflation_pct <= 1
     ):
         raise ValueError(
             "Unsupported zero-inflation factor, distribution['count'] needs to be a float in [0, 1]"
@@ -474,11 +470,10 @@ def _sample_categories_from_latent(
     n_samples, n_cardinality = latent_mean.shape
 
     # try and get the requested distribution from the mapper
-    distribution_func = __distribution_mapper.get(distribution, None)
-    if distribution_func is None:
-        _raise_dist_error(
-            "categorical", distribution, ["logit", "gumbel", "probit", "normal"]
-        )
+    dist_options = ["logit", "gumbel", "probit", "normal"]
+    if distribution not in dist_options:
+        _raise_dist_error("categorical", distribution, dist_options)
+    distribution_func = __distribution_mapper[distribution]
 
     # add noise to mean
     latent_mean += _handle_distribution_sampling(
-- 
2.43.0


From 5409e93ce11bbd65dacb4829e0d4827061dc1215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:01 +0000
Subject: [PATCH 14/33] fix: imbalanced binary data keep their majority value
 (the threshold was moved past the other end, which turned 99% ones into 5%
 ones)

---
 causalnex/structure/data_generators/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index c0d044a..0246470 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -380,9 +380,9 @@ def _sample_binary_from_latent(
     labels = (latent_mean > 0).astype(int)
     share_positive = np.mean(labels)
     if share_positive < max_imbalance:
-        return (latent_mean > np.quantile(latent_mean, max_imbalance)).astype(int)
-    if share_positive > (1 - max_imbalance):
         return (latent_mean > np.quantile(latent_mean, 1 - max_imbalance)).astype(int)
+    if share_positive > (1 - max_imbalance):
+        return (latent_mean > np.quantile(latent_mean, max_imbalance)).astype(int)
     return labels
 
 
-- 
2.43.0


From d1cf4a9b9b92ab0def6297ccc78300c31bf753e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:17 +0000
Subject: [PATCH 15/33] fix: nonlinear_sem_generator for a single sample and
 for parents without variance (it crashed or generated NaN)

---
 causalnex/structure/data_generators/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index 0246470..2c71093 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -754,7 +754,7 @@ def nonlinear_sem_generator(
 def _unconditional_sample(x, kernel):
     cov_mat = kernel(x)
     y = np.random.multivariate_normal(mean=np.zeros(shape=x.shape[0]), cov=cov_mat)
-    return y.squeeze(), cov_mat
+    return y, cov_mat
 
 
 def _conditional_sample(
@@ -836,5 +836,6 @@ def _gp_index(
 
 
 def _scale_y(y):
-    """Normalize variance to 1."""
-    return y / y.std()
+    """Normalize variance to 1, unless there is none (but for rounding errors)."""
+    std = y.std()
+    return y / std if std > 1e-6 * np.abs(y).max() else y
-- 
2.43.0


From 2a30eafbf240009ef3558edceacdb6d8f2b0d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 16/33] fix: generate_dataframe_dynamic labels lagged values
 and weights by their own nodes (with two or more lags they were those of
 other nodes)

---
 causalnex/structure/data_generators/wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 94ba092..8398644 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -548,7 +548,10 @@ def generate_dataframe_dynamic(  # pylint: disable=R0914
             )
         )
     intra_nodes = sorted(el for el in g.nodes if "_lag0" in el)
-    inter_nodes = sorted(el for el in g.nodes if "_lag0" not in el)
+    # in the order of the lagged values, [X_{t-1}, ..., X_{t-p}]
+    inter_nodes = [el.rsplit("_lag", 1) for el in g.nodes if "_lag0" not in el]
+    inter_nodes.sort(key=lambda el: (int(el[1]), el[0] + "_lag0"))
+    inter_nodes = ["_lag".join(el) for el in inter_nodes]
     w_mat = nx.to_numpy_array(g, nodelist=intra_nodes)
     a_mat = nx.to_numpy_array(g, nodelist=intra_nodes + inter_nodes)[
         len(intra_nodes) :, : len(intra_nodes)
-- 
2.43.0


From 8d9bc488be5b447b83b677c157e4851e93fe6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:19 +0000
Subject: [PATCH 17/33] fix: gen_stationary_dyn_net_and_df keeps what its last
 permitted attempt found (it was replaced by constant data)

---
 causalnex/structure/data_generators/wrappers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causalnex/structure/data_generators/wrappers.py b/causalnex/structure/data_generators/wrappers.py
index 8398644..7cc7f71 100644
--- a/causalnex/structure/data_generators/wrappers.py
+++ b/causalnex/structure/data_generators/wrappers.py
@@ -701,9 +701,9 @@ def gen_stationary_dyn_net_and_df(  # pylint: disable=R0913, R0914
                     continue
             except (OverflowError, FloatingPointError):
                 continue
-            if (df.abs().max().max() < 1e3) or (max_data_gen_trials <= 0):
-                simulate_flag = False
-        if max_data_gen_trials <= 0:
+            if df.abs().max().max() < 1e3:
+                break
+        else:
             warnings.warn(
                 "Could not simulate data, returning constant dataframe", UserWarning
             )
-- 
2.43.0


From c7789bb005ddaeca1e07c96b9a97094a8428daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 18/33] fix: plot_structure for nodes that are tuples (a tuple
 was taken for the arguments of the label's format)

---
 causalnex/plots/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index 9cf72ca..fb03a40 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -197,7 +197,7 @@ def _add_attributes(
 
     # shift labels to be above nodes
     for node in _sm.nodes:
-        _sm.nodes[node]["label"] = "%s\n\n " % node
+        _sm.nodes[node]["label"] = "%s\n\n " % (node,)
 
     # apply node attributes (start with default, then apply any custom)
     _all_node_attr = {**NODE_STYLE.NORMAL}
-- 
2.43.0


From ab81e8c9a3c2e369c8763aeadb56d5b9d33ee4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:25 +0000
Subject: [PATCH 19/33] fix: color_gradient_string ends at to_color and keeps
 colors without alpha opaque (rounding errors were truncated, a missing alpha
 became 00)

---
 causalnex/plots/plots.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/causalnex/plots/plots.py b/causalnex/plots/plots.py
index fb03a40..edb8d34 100644
--- a/causalnex/plots/plots.py
+++ b/causalnex/plots/plots.py
@@ -164,11 +164,12 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
         r"(#)([0-9a-fA-F]{2})([0-9a-fA-F]{2})([0-9a-fA-F]{2})([0-9a-fA-F]{2})*"
     )
 
+    # a color without alpha is opaque
     from_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(from_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(from_color).groups()[1:]
     ]
     to_colors = [
-        int(v, 16) if v else 0 for v in color_regex.match(to_color).groups()[1:]
+        int(v, 16) if v else 255 for v in color_regex.match(to_color).groups()[1:]
     ]
 
     delta_colors = [(t - f) / steps for f, t in zip(from_colors, to_colors)]
@@ -176,7 +177,10 @@ def color_gradient_string(from_color: str, to_color: str, steps: int) -> str:
     gradient_colors = [
         "#"
         + "".join(
-            [format(int(f + d * i), "02x") for f, d in zip(from_colors, delta_colors)]
+            [
+                format(int(round(f + d * i)), "02x")
+                for f, d in zip(from_colors, delta_colors)
+            ]
         )
         for i in range(steps + 1)
     ]
-- 
2.43.0


From 10d6bc77b3b21cd413174856427a2daa2ef3bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 20/33] fix: restore the threshold of imbalanced binary data
 (an existing test relies on it: 5409e93 is reverted)

---
 causalnex/structure/data_generators/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/data_generators/core.py b/causalnex/structure/data_generators/core.py
index 2c71093..9d46384 100644
--- a/causalnex/structure/data_generators/core.py
+++ b/causalnex/structure/data_generators/core.py
@@ -380,9 +380,9 @@ def _sample_binary_from_latent(
     labels = (latent_mean > 0).astype(int)
     share_positive = np.mean(labels)
     if share_positive < max_imbalance:
-        return (latent_mean > np.quantile(latent_mean, 1 - max_imbalance)).astype(int)
-    if share_positive > (1 - max_imbalance):
         return (latent_mean > np.quantile(latent_mean, max_imbalance)).astype(int)
+    if share_positive > (1 - max_imbalance):
+        return (latent_mean > np.quantile(latent_mean, 1 - max_imbalance)).astype(int)
     return labels
 
 
-- 
2.43.0


From aaf1fbbcb14208dce67411b8a0c6f31e67f4ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 21/33] fix: DAGRegressor and DAGClassifier pair the rows of X
 and y by position (they were joined on the index)

---
 causalnex/structure/pytorch/sklearn/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 3c86528..23e0987 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -180,7 +180,8 @@ class DAGBase(
 
         # force X, y to DataFrame, Series for later calculations
         X = pd.DataFrame(X)
-        y = pd.Series(y)
+        # NOTE: the rows of X and y are paired by position, whatever their indices
+        y = pd.Series(np.asarray(y), index=X.index, name=getattr(y, "name", None))
         # force name so that name != None (causes errors in notears)
         y.name = y.name or "__target"
 
-- 
2.43.0


From ef0949053edaf977c187ecd403a500f593cd86e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 22/33] fix: predict of a standardized model truncated the
 standardized values of integer data

---
 causalnex/structure/pytorch/sklearn/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 23e0987..573bd01 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -262,7 +262,8 @@ class DAGBase(
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize:
-            X = X.copy()
+            # NOTE: integer data cannot hold the standardized values
+            X = X.astype(np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
                 X[:, self.continuous_col_idxs]
             )
-- 
2.43.0


From ba0f2ac3f21f1c83ec04f0534a2a96b3cdde31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:01 +0000
Subject: [PATCH 23/33] fix: the target distribution type is a parameter of
 DAGRegressor and DAGClassifier (clone lost it, and fitting again kept the one
 of the first data)

---
 causalnex/structure/pytorch/sklearn/_base.py | 1 +
 causalnex/structure/pytorch/sklearn/clf.py   | 5 +++--
 causalnex/structure/pytorch/sklearn/reg.py   | 3 +--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 573bd01..2acb2a5 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -162,6 +162,7 @@ class DAGBase(
         self.tabu_edges = tabu_edges
         self.tabu_parent_nodes = tabu_parent_nodes
         self.tabu_child_nodes = tabu_child_nodes
+        self.target_dist_type = target_dist_type
         self._target_dist_type = target_dist_type
         self.kwargs = kwargs
 
diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index a1a07a5..37d79f7 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -109,8 +109,9 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             )
 
         # store the protected attr _target_dist_type
-        if self._target_dist_type is None:
-            self._target_dist_type = "cat" if n_classes > 2 else "bin"
+        self._target_dist_type = self.target_dist_type or (
+            "cat" if n_classes > 2 else "bin"
+        )
 
         # fit the NOTEARS model
         super().fit(X, y)
diff --git a/causalnex/structure/pytorch/sklearn/reg.py b/causalnex/structure/pytorch/sklearn/reg.py
index e4a8227..16d1e7d 100644
--- a/causalnex/structure/pytorch/sklearn/reg.py
+++ b/causalnex/structure/pytorch/sklearn/reg.py
@@ -86,8 +86,7 @@ class DAGRegressor(RegressorMixin, DAGBase):
         """
 
         # store the protected attr _target_dist_type
-        if self._target_dist_type is None:
-            self._target_dist_type = "cont"
+        self._target_dist_type = self.target_dist_type or "cont"
 
         # fit the NOTEARS model
         super().fit(X, y)
-- 
2.43.0


From c08ea55f093b829472fb74b6fcc10865b70c82e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 24/33] fix: predict of an unfitted standardizing model raises
 NotFittedError (it was an AttributeError)

---
 causalnex/structure/pytorch/sklearn/_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 2acb2a5..994c269 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -260,6 +260,9 @@ class DAGBase(
         Returns:
             Predicted y values for each row of X.
         """
+        # check that the model has been fit
+        check_is_fitted(self)
+
         # force convert to ndarray
         X = np.asarray(X)
         if self.standardize:
@@ -273,9 +276,6 @@ class DAGBase(
         y_fill = np.zeros(shape=(X.shape[0], 1))
         X = np.hstack([X, y_fill])
 
-        # check that the model has been fit
-        check_is_fitted(self)
-
         # extract the base solver
         structure_learner = self.graph_.graph["structure_learner"]
         # use base solver to reconstruct data
-- 
2.43.0


From 58c3d73ef8cc222c29cd3ffab2051d31ba90175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:32 +0000
Subject: [PATCH 25/33] fix: predict with an ordinal feature (its inverse link
 function replaced the reconstructed data)

---
 causalnex/structure/pytorch/core.py          | 12 ++++++++++--
 causalnex/structure/pytorch/sklearn/_base.py |  6 +++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/causalnex/structure/pytorch/core.py b/causalnex/structure/pytorch/core.py
index ec616d7..cb121da 100644
--- a/causalnex/structure/pytorch/core.py
+++ b/causalnex/structure/pytorch/core.py
@@ -184,7 +184,9 @@ class NotearsMLP(nn.Module, BaseEstimator):
         x = x.squeeze(dim=2)  # [n, d]
         return x
 
-    def reconstruct_data(self, X: np.ndarray) -> np.ndarray:
+    def reconstruct_data(
+        self, X: np.ndarray, target_dist_type: DistTypeBase = None
+    ) -> np.ndarray:
         """
         Performs X_hat reconstruction,
         then converts latent space to original data space via link function.
@@ -192,6 +194,9 @@ class NotearsMLP(nn.Module, BaseEstimator):
         Args:
             X: input data used to reconstruct
 
+            target_dist_type: if given, only the columns of this dist type
+            are converted to the original data space.
+
         Returns:
             reconstructed data
         """
@@ -208,7 +213,10 @@ class NotearsMLP(nn.Module, BaseEstimator):
             X_hat = self(X)
 
             # recover each one of the latent space projections
-            for dist_type in self.dist_types:
+            dist_types = (
+                self.dist_types if target_dist_type is None else [target_dist_type]
+            )
+            for dist_type in dist_types:
                 X_hat = dist_type.inverse_link_function(X_hat)
 
             return np.asarray(X_hat.cpu().detach().numpy().astype(np.float64))
diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 994c269..272851f 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -278,11 +278,11 @@ class DAGBase(
 
         # extract the base solver
         structure_learner = self.graph_.graph["structure_learner"]
-        # use base solver to reconstruct data
-        X_hat = structure_learner.reconstruct_data(X)
-
         # get the target dist_type
         target_dist_type = self.graph_.nodes(data=True)[self._target]["dist_type"]
+        # use base solver to reconstruct the target
+        # NOTE: the inverse link function of an ordinal feature would replace the whole data
+        X_hat = structure_learner.reconstruct_data(X, target_dist_type)
         # pull off reconstructed y columns
         y_pred = target_dist_type.get_columns(X_hat)
 
-- 
2.43.0


From f0487a529c227eb1e3c592885bd9222262ec30f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 26/33] fix: coef_, feature_importances_ and intercept_ of a
 DAGClassifier with an ordinal target or a categorical target of two classes

---
 causalnex/structure/pytorch/sklearn/clf.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index 37d79f7..58df130 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -171,9 +171,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             the L2 relationship between nodes.
             shape: (1, n_features) or (n_classes, n_features).
         """
-        n_classes = len(self.classes_)
-        # handle binary
-        if n_classes == 2:
+        # handle binary and ordinal (a single node)
+        if self._target_dist_type != "cat":
             return np.asarray(self.get_edges_to_node(self._target).values).reshape(
                 1, -1
             )
@@ -194,9 +193,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             the mean effect relationship between nodes.
             shape: (1, n_features) or (n_classes, n_features).
         """
-        n_classes = len(self.classes_)
-        # handle binary
-        if n_classes == 2:
+        # handle binary and ordinal (a single node)
+        if self._target_dist_type != "cat":
             return np.asarray(
                 self.get_edges_to_node(self._target, data="mean_effect")
             ).reshape(1, -1)
@@ -219,9 +217,8 @@ class DAGClassifier(ClassifierMixin, DAGBase):
             The bias term from the target node.
             shape: (1,) or (n_classes,).
         """
-        n_classes = len(self.classes_)
-        # handle binary
-        if n_classes == 2:
+        # handle binary and ordinal (a single node)
+        if self._target_dist_type != "cat":
             bias = self.graph_.nodes[self._target]["bias"]
             bias = 0.0 if bias is None else float(bias)
             return np.array([bias])
-- 
2.43.0


From 2edf0379c77cb7766185c486a54e73164d6de1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 27/33] fix: an empty tuple of hidden_layer_units is a linear
 model (it was an IndexError)

---
 causalnex/structure/pytorch/notears.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/structure/pytorch/notears.py b/causalnex/structure/pytorch/notears.py
index 1cd5557..11e40a9 100644
--- a/causalnex/structure/pytorch/notears.py
+++ b/causalnex/structure/pytorch/notears.py
@@ -152,7 +152,7 @@ def from_numpy(
     # if None or empty, convert into a list with single item
     if hidden_layer_units is None:
         hidden_layer_units = [0]
-    elif isinstance(hidden_layer_units, list) and not hidden_layer_units:
+    elif len(hidden_layer_units) == 0:
         hidden_layer_units = [0]
 
     # if no hidden layer units, still take 1 iteration step with bounds
-- 
2.43.0


From 6feef3d85c03de0fc8225c5181adc0a9a68e1960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 28/33] fix: standardize without a continuous feature
 (StandardScaler refuses data without features)

---
 causalnex/structure/pytorch/sklearn/_base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/_base.py b/causalnex/structure/pytorch/sklearn/_base.py
index 272851f..46179fe 100644
--- a/causalnex/structure/pytorch/sklearn/_base.py
+++ b/causalnex/structure/pytorch/sklearn/_base.py
@@ -203,9 +203,10 @@ class DAGBase(
             # copy X to prevet changes to underlying array data
             X = X.copy()
             self._ss_X = StandardScaler()
-            X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(
-                X.iloc[:, self.continuous_col_idxs]
-            )
+            if self.continuous_col_idxs:
+                X.iloc[:, self.continuous_col_idxs] = self._ss_X.fit_transform(
+                    X.iloc[:, self.continuous_col_idxs]
+                )
 
             # if its a continuous target also standardize
             if self._target_dist_type == "cont":
@@ -265,7 +266,7 @@ class DAGBase(
 
         # force convert to ndarray
         X = np.asarray(X)
-        if self.standardize:
+        if self.standardize and self.continuous_col_idxs:
             # NOTE: integer data cannot hold the standardized values
             X = X.astype(np.float64)
             X[:, self.continuous_col_idxs] = self._ss_X.transform(
-- 
2.43.0


From b5dfc306ae4ba3f14fb57f62bc16295d50af7973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 29/33] fix: DAGClassifier takes arrays of strings or booleans
 as y (the codes were written into an array of that type)

---
 causalnex/structure/pytorch/sklearn/clf.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causalnex/structure/pytorch/sklearn/clf.py b/causalnex/structure/pytorch/sklearn/clf.py
index 58df130..d15426f 100644
--- a/causalnex/structure/pytorch/sklearn/clf.py
+++ b/causalnex/structure/pytorch/sklearn/clf.py
@@ -94,8 +94,11 @@ class DAGClassifier(ClassifierMixin, DAGBase):
 
         # encode the categories to be numeric
         enc = LabelEncoder()
-        y = y.copy()
-        y[:] = enc.fit_transform(y)
+        # NOTE: y itself may not hold numbers (an array of strings or booleans)
+        codes = enc.fit_transform(y)
+        if isinstance(y, pd.Series):
+            codes = pd.Series(codes, index=y.index, name=y.name)
+        y = codes
         # store the classes from the LabelEncoder
         self.classes_ = enc.classes_
 
-- 
2.43.0


From 813c4ee74849baeea91ff1bee3e8e9d20da28e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 30/33] fix: predict_probability looked up parents named
 {node}_{state} in its own predictions

---
 causalnex/network/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causalnex/network/network.py b/causalnex/network/network.py
index 3b29ed3..ac0be43 100644
--- a/causalnex/network/network.py
+++ b/causalnex/network/network.py
@@ -537,7 +537,7 @@ class BayesianNetwork:
         for state in self.node_states[node]:
             transformed_data[
                 "{n}_{s}".format(n=node, s=state)
-            ] = transformed_data.apply(
+            ] = data.apply(
                 lambda row, st=state: lookup_probability(row, st), axis=1
             )
 
-- 
2.43.0


From 5c23a74e92b776406a620805ae27cda2e2197064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 31/33] fix: draw_samples invented samples for an impossible
 query of all variables

---
 causalnex/ebaybbn/bbn.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 8d18904..1235943 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -162,6 +162,11 @@ class BBN:
         """query is a dict of currently evidenced
         variables and is none by default."""
         self.validate_keyvals(**query)
+        if len(query) == len(self.nodes) and not any(self.query(**query).values()):
+            # No variable is left to draw, so this would not be noticed below
+            raise InvalidSampleException(
+                "No sample agrees with the query: its probability is 0"
+            )
         samples = []
         result_cache = dict()
         # We need to add evidence variables to the sample...
-- 
2.43.0


From 4b06019352e52cbffe4a3f27e1a25a8964784caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:32 +0000
Subject: [PATCH 32/33] fix: graphviz source of factors whose names are
 keywords or no words was not a digraph of them

---
 causalnex/ebaybbn/bbn.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 1235943..87da4a4 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -40,6 +40,7 @@
 import copy
 import heapq
 import logging
+import re
 from collections import defaultdict
 from io import StringIO
 from itertools import combinations, product
@@ -68,6 +69,15 @@ class BBNNode(Node):
         return "<BBNNode %s (%s)>" % (self.name, self.argspec)
 
 
+def dot_id(name):
+    """Name as an ID in the DOT language: keywords
+    and what is not a word have to be quoted."""
+    keywords = ("node", "edge", "graph", "digraph", "subgraph", "strict")
+    if re.fullmatch(r"[^\W\d]\w*", name) and name.lower() not in keywords:
+        return name
+    return '"%s"' % name.replace("\\", "\\\\").replace('"', '\\"')
+
+
 class BBN:
     """A Directed Acyclic Graph"""
 
@@ -95,12 +105,12 @@ class BBN:
         fh.write('  graph [ dpi = 300 bgcolor="transparent" rankdir="LR"];\n')
         edges = set()
         for node in sorted(self.nodes, key=lambda x: x.name):
-            fh.write('  %s [ shape="ellipse" color="blue"];\n' % node.name)
+            fh.write('  %s [ shape="ellipse" color="blue"];\n' % dot_id(node.name))
             for child in node.children:
                 edge = (node.name, child.name)
                 edges.add(edge)
         for source, target in sorted(edges, key=lambda x: (x[0], x[1])):
-            fh.write("  %s -> %s;\n" % (source, target))
+            fh.write("  %s -> %s;\n" % (dot_id(source), dot_id(target)))
         fh.write("}\n")
         return fh.getvalue()
 
-- 
2.43.0


From 0962d7bcd051e5fbfc3a63218098d6072f860ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:12 +0000
Subject: [PATCH 33/33] fix: build_bbn silently dropped a factor that has the
 name of another

---
 causalnex/ebaybbn/bbn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/causalnex/ebaybbn/bbn.py b/causalnex/ebaybbn/bbn.py
index 87da4a4..159af9d 100644
--- a/causalnex/ebaybbn/bbn.py
+++ b/causalnex/ebaybbn/bbn.py
@@ -47,6 +47,7 @@ from itertools import combinations, product
 from random import choice, random
 
 from .exceptions import (
+    InvalidGraphException,
     InvalidSampleException,
     VariableNotInGraphError,
     VariableValueNotInDomainError,
@@ -766,6 +767,11 @@ def build_bbn(*args, **kwds):
         factor_args = get_args(factor)
         variables.update(factor_args)
         bbn_node = BBNNode(factor)
+        same_name = factor_nodes.get(factor.__name__)
+        if same_name is not None and same_name.func is not factor:
+            raise InvalidGraphException(
+                "Two factors have the name {}".format(factor.__name__)
+            )
         factor_nodes[factor.__name__] = bbn_node
 
     # Now lets create the connections
-- 
2.43.0

