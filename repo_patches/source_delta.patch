From 6d97a70f51a8300da811e3b163cee649b826e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 01/13] fix: reject grow moves at leaves without available
 decision rules

When every predictor is fully used by the ancestors of the leaf (or has no
cutpoints), choose_variable returns p, which was written in the tree as if it
was a predictor index.
---
 src/bartz/mcmcstep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d98c07e..6d0edcb 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -435,6 +435,9 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
 
     ratio = compute_partial_ratio(prob_choose, num_prunable, p_nonterminal, leaf_to_grow)
 
+    # if there are no rules available at the leaf, the new tree is impossible
+    ratio = jnp.where(var < max_split.size, ratio, 0)
+
     return dict(
         num_growable=num_growable,
         node=leaf_to_grow,
-- 
2.43.0


From 97672e826377349db3298799f1bd5ea6e49bd501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 02/13] fix: do not propose to split on predictors without
 cutpoints

fully_used_variables only lists predictors in the ancestors of the leaf, so
predictors with max_split == 0 (e.g., constant ones) were selected anyway.
---
 src/bartz/mcmcstep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 6d0edcb..3b3e789 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -557,7 +557,8 @@ def choose_variable(var_tree, split_tree, max_split, leaf_index, key):
     allowed splits. If no variable has a non-empty range, return `p`.
     """
     var_to_ignore = fully_used_variables(var_tree, split_tree, max_split, leaf_index)
-    return randint_exclude(key, max_split.size, var_to_ignore)
+    has_splits = max_split.astype(bool)
+    return randint_masked(key, has_splits.at[var_to_ignore].set(False))
 
 def fully_used_variables(var_tree, split_tree, max_split, leaf_index):
     """
-- 
2.43.0


From 73cf5674baf600f07cefc2c932d4f80ffdfad0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 03/13] fix: do not modify the 'ratios' dict of the input state
 in step

---
 src/bartz/mcmcstep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 3b3e789..87b23a4 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1283,7 +1283,8 @@ def accept_moves_sequential_stage(bart, count_trees, moves, move_counts, prelkv,
 
     bart['resid'] = resid
     bart['leaf_trees'] = leaf_trees
-    bart.get('ratios', {}).update(ratios)
+    if 'ratios' in bart:
+        bart['ratios'] = dict(bart['ratios'], **ratios)
     moves['acc'] = acc
     moves['to_prune'] = to_prune
 
-- 
2.43.0


From ee56bf8a95fcdbd2217e64c2e7aa1149bd477c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 04/13] fix: make jaxext.unique look at the whole array when
 size < x.size

---
 src/bartz/jaxext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 815f2b7..7e67219 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -183,8 +183,8 @@ def unique(x, size, fill_value):
         out = out.at[i_out].set(x)
         return (i_out, i_in + 1, x, out), None
     carry = 0, 0, x[0], jnp.full(size, fill_value, x.dtype)
-    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x[:size])
-    return out, actual_length + 1
+    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x)
+    return out, jnp.minimum(actual_length + 1, size)
 
 def autobatch(func, max_io_nbytes, in_axes=0, out_axes=0, return_nbatches=False):
     """
-- 
2.43.0


From cb5218b21badc1124b3646ace6751d859e45d3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 05/13] fix: keep distinct values in separate bins when the
 midpoint rounds or overflows

---
 src/bartz/prepcovars.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 4319b6b..45c2673 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -70,7 +70,12 @@ def _quantilized_splits_from_matrix(x, out_length):
         indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
-        midpoints = (u[1:] + u[:-1]) / 2
+        midpoints = u[1:] / 2 + u[:-1] / 2 # the sum does not overflow
+        midpoints = jnp.maximum(midpoints, u[:-1])
+        # if the midpoint rounds to the right value, use the left one to keep
+        # the two values separated; infinite values are padding
+        rounded_up = (midpoints == u[1:]) & (u[1:] < huge)
+        midpoints = jnp.where(rounded_up, u[:-1], midpoints)
     indices = jnp.linspace(-1, actual_length, out_length + 2)[1:-1]
     indices = jnp.around(indices).astype(jaxext.minimal_unsigned_dtype(midpoints.size - 1))
         # indices calculation with float rather than int to avoid potential
-- 
2.43.0


From 8a69f4f1866ce15082379df1a74e8787ba4dfa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 06/13] fix: make huge_value work with uint32 values under jit

---
 src/bartz/jaxext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 7e67219..f2bf06e 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -110,7 +110,7 @@ def huge_value(x):
         The maximum value allowed by `x`'s type (+inf for floats).
     """
     if jnp.issubdtype(x.dtype, jnp.integer):
-        return jnp.iinfo(x.dtype).max
+        return x.dtype.type(jnp.iinfo(x.dtype).max)
     else:
         return jnp.inf
 
-- 
2.43.0


From c62029f0b0dd232d89bf3421e2b7f7b09745de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:33 +0000
Subject: [PATCH 07/13] fix: support maxdepth < 3

---
 src/bartz/mcmcstep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 87b23a4..effa789 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -609,8 +609,10 @@ def ancestor_variables(var_tree, max_split, node_index):
         The variable indices of the ancestors of the node, from the root to
         the parent. Unused spots are filled with `p`.
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     ancestor_vars = jnp.zeros(max_num_ancestors, jaxext.minimal_unsigned_dtype(max_split.size))
+    if max_num_ancestors == 0:
+        return ancestor_vars
     carry = ancestor_vars.size - 1, node_index, ancestor_vars
     def loop(carry, _):
         i, index, ancestor_vars = carry
@@ -644,7 +646,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     l, r : int
         The range of allowed splits is [l, r).
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
     carry = 0, initial_r, node_index
     def loop(carry, _):
-- 
2.43.0


From 37077a1dfe8e46e0d6909fa8adb38301b8aa01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:20 +0000
Subject: [PATCH 08/13] fix: split_range overflows when a cutpoint is the
 maximum of its type

The lower end of the range was carried in the integer type of split_tree, so
with max_split == 255 (uint8) a node splitting on the last cutpoint made the
range of its right descendants start from 0 instead of being empty.
---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index effa789..e8cfac4 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -648,7 +648,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     """
     max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
-    carry = 0, initial_r, node_index
+    carry = jnp.zeros((), initial_r.dtype), initial_r, node_index
     def loop(carry, _):
         l, r, index = carry
         right_child = (index & 1).astype(bool)
-- 
2.43.0


From fe50ddb804de052c2e32c847f7b89672dbe70e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:26 +0000
Subject: [PATCH 09/13] fix: allow predict with pandas data frames

comparing two pandas Index objects yields an array, so the comparison of
the formats failed with ValueError
---
 src/bartz/BART.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index be77301..14df0db 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -256,7 +256,7 @@ class gbart:
     @staticmethod
     def _process_predictor_input(x):
         if hasattr(x, 'columns'):
-            fmt = dict(kind='dataframe', columns=x.columns)
+            fmt = dict(kind='dataframe', columns=list(x.columns))
             x = x.to_numpy().T
         else:
             fmt = dict(kind='array', num_covar=x.shape[0])
-- 
2.43.0


From 9e92bf58b7e37009d5e9e514cfa16fa9fb186c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:38 +0000
Subject: [PATCH 10/13] fix: quantile cutpoints of 257 distinct integer values

actual_length is weakly typed, so it was converted to the type of the
indices, where it overflowed when equal to the number of midpoints
---
 src/bartz/prepcovars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 45c2673..65fda0b 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -67,7 +67,7 @@ def _quantilized_splits_from_matrix(x, out_length):
     actual_length -= 1
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
-        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
+        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size))
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
         midpoints = u[1:] / 2 + u[:-1] / 2 # the sum does not overflow
-- 
2.43.0


From c68067a4bfa0ebd878d169b1896866e27a886e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:51 +0000
Subject: [PATCH 11/13] fix: count more than 255 leaves with the same number of
 points in points_per_leaf_distr

---
 src/bartz/debug.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/debug.py b/src/bartz/debug.py
index 868ab35..6753e98 100644
--- a/src/bartz/debug.py
+++ b/src/bartz/debug.py
@@ -86,7 +86,8 @@ def points_per_leaf_distr(var_tree, split_tree, X):
     indices = traverse_tree(X, var_tree, split_tree)
     count_tree = jnp.zeros(2 * split_tree.size, dtype=jaxext.minimal_unsigned_dtype(indices.size))
     count_tree = count_tree.at[indices].add(1)
-    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).view(jnp.uint8)
+    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True)
+    is_leaf = is_leaf.astype(jaxext.minimal_unsigned_dtype(split_tree.size)) # there are at most split_tree.size leaves
     return jnp.bincount(count_tree, is_leaf, length=X.shape[1] + 1)
 
 def forest_points_per_leaf_distr(bart, X):
-- 
2.43.0


From b2ee170798d3344bc6691dc08383ebe181cc3894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:10 +0000
Subject: [PATCH 12/13] fix: convert an integer response to floating point, its
 range or difference with the offset could overflow

---
 src/bartz/BART.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 14df0db..2c773a9 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -275,7 +275,8 @@ class gbart:
             y = y.to_numpy()
         else:
             fmt = dict(kind='array')
-        y = jnp.asarray(y)
+        y = jnp.asarray(y, jaxext.float_type(getattr(y, 'dtype', float)))
+            # floating point because integers may overflow when subtracted
         assert y.ndim == 1
         return y, fmt
 
-- 
2.43.0


From 4b33c28b1207265cf5be9fa6b49909ad7424b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:31 +0000
Subject: [PATCH 13/13] fix: estimate of the error variance was nan with
 constant predictors

---
 src/bartz/BART.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 2c773a9..bad5d5f 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -302,6 +302,10 @@ class gbart:
                     # centering is equivalent to adding an intercept column
                 _, chisq, rank, _ = jnp.linalg.lstsq(x_centered, y_centered)
                 chisq = chisq.squeeze(0)
+                constant = ~jnp.any(x_centered)
+                    # lstsq does not support a null matrix
+                chisq = jnp.where(constant, jnp.dot(y_centered, y_centered), chisq)
+                rank = jnp.where(constant, 0, rank)
                 dof = len(y_train) - rank
                 sigest2 = chisq / dof
             alpha = sigdf / 2
-- 
2.43.0

