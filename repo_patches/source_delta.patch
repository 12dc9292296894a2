From 8afb35dcb2af1af4043a364e39b451901cbcfc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:12 +0000
Subject: [PATCH 01/12] fix: support trees with maximum depth 1 and 2

---
 src/bartz/mcmcstep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d98c07e..2cfb0fb 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -605,8 +605,10 @@ def ancestor_variables(var_tree, max_split, node_index):
         The variable indices of the ancestors of the node, from the root to
         the parent. Unused spots are filled with `p`.
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     ancestor_vars = jnp.zeros(max_num_ancestors, jaxext.minimal_unsigned_dtype(max_split.size))
+    if not max_num_ancestors:
+        return ancestor_vars # the only node that can be grown is the root
     carry = ancestor_vars.size - 1, node_index, ancestor_vars
     def loop(carry, _):
         i, index, ancestor_vars = carry
@@ -640,7 +642,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     l, r : int
         The range of allowed splits is [l, r).
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
     carry = 0, initial_r, node_index
     def loop(carry, _):
-- 
2.43.0


From aef8612fdac81e604e73f14787ed43dc372b0d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:15 +0000
Subject: [PATCH 02/12] fix: do not modify the saved ratios of the input state
 in a MCMC step

---
 src/bartz/mcmcstep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 2cfb0fb..f303479 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1281,7 +1281,8 @@ def accept_moves_sequential_stage(bart, count_trees, moves, move_counts, prelkv,
 
     bart['resid'] = resid
     bart['leaf_trees'] = leaf_trees
-    bart.get('ratios', {}).update(ratios)
+    if ratios:
+        bart['ratios'] = ratios
     moves['acc'] = acc
     moves['to_prune'] = to_prune
 
-- 
2.43.0


From cc41da2d86d4ae731578765810f22ca8b15531d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:15 +0000
Subject: [PATCH 03/12] fix: avoid integer overflow in the range of allowed
 splits

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index f303479..969f324 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -649,7 +649,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
         l, r, index = carry
         right_child = (index & 1).astype(bool)
         index >>= 1
-        split = split_tree[index]
+        split = split_tree[index].astype(jnp.int32)
         cond = (var_tree[index] == ref_var) & index.astype(bool)
         l = jnp.where(cond & right_child, jnp.maximum(l, split), l)
         r = jnp.where(cond & ~right_child, jnp.minimum(r, split), r)
-- 
2.43.0


From e15a18c203d58ae1f40a05838626d88beadafe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:15 +0000
Subject: [PATCH 04/12] fix: make unique consider all the input when the output
 is shorter

---
 src/bartz/jaxext.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 815f2b7..7e67219 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -183,8 +183,8 @@ def unique(x, size, fill_value):
         out = out.at[i_out].set(x)
         return (i_out, i_in + 1, x, out), None
     carry = 0, 0, x[0], jnp.full(size, fill_value, x.dtype)
-    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x[:size])
-    return out, actual_length + 1
+    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x)
+    return out, jnp.minimum(actual_length + 1, size)
 
 def autobatch(func, max_io_nbytes, in_axes=0, out_axes=0, return_nbatches=False):
     """
-- 
2.43.0


From deae32dba09486da821e124ab35e379a329b2f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:15 +0000
Subject: [PATCH 05/12] fix: restrict empty traces to the documented fields

---
 src/bartz/mcmcloop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bartz/mcmcloop.py b/src/bartz/mcmcloop.py
index 4510b3d..a8ac553 100644
--- a/src/bartz/mcmcloop.py
+++ b/src/bartz/mcmcloop.py
@@ -107,6 +107,7 @@ def run_mcmc(bart, n_burn, n_save, n_skip, callback, key):
         return (bart, i_total + 1, i_skip + 1, key), output
 
     def empty_trace(bart, tracelist):
+        bart = {key: bart[key] for key in tracelist if key in bart}
         return jax.vmap(lambda x: x, in_axes=None, out_axes=0, axis_size=0)(bart)
 
     if n_burn > 0:
-- 
2.43.0


From b0bf4f1ae5248d80b66980b7e7dc02a1bf2dd898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:08 +0000
Subject: [PATCH 06/12] fix: compare the columns of dataframes in predict

---
 src/bartz/BART.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index be77301..14df0db 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -256,7 +256,7 @@ class gbart:
     @staticmethod
     def _process_predictor_input(x):
         if hasattr(x, 'columns'):
-            fmt = dict(kind='dataframe', columns=x.columns)
+            fmt = dict(kind='dataframe', columns=list(x.columns))
             x = x.to_numpy().T
         else:
             fmt = dict(kind='array', num_covar=x.shape[0])
-- 
2.43.0


From 394987c622907989b640057c81656c07269c5834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:44 +0000
Subject: [PATCH 07/12] fix: do not grow leaves where no decision rule is
 available

---
 src/bartz/mcmcstep.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 969f324..04d5537 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -358,7 +358,7 @@ def sample_moves(bart, key):
     right = left + 1
 
     return dict(
-        allowed=grow | prune_moves['allowed'],
+        allowed=jnp.where(grow, grow_moves['allowed'], prune_moves['allowed']),
         grow=grow,
         num_growable=grow_moves['num_growable'],
         node=node,
@@ -409,6 +409,8 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
     grow_move : dict
         A dictionary with fields:
 
+        'allowed' : bool
+            Whether there is a decision rule available at the selected leaf.
         'num_growable' : int
             The number of growable leaves.
         'node' : int
@@ -433,9 +435,14 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
 
     split = choose_split(var_tree, split_tree, max_split, leaf_to_grow, key2)
 
+    # the move is not possible if there are no variables with available splits
+    # (var is out of bounds), or if the variable has no splits in general
+    allowed = max_split.at[var].get(mode='fill', fill_value=0) > 0
+
     ratio = compute_partial_ratio(prob_choose, num_prunable, p_nonterminal, leaf_to_grow)
 
     return dict(
+        allowed=allowed,
         num_growable=num_growable,
         node=leaf_to_grow,
         var=var,
@@ -682,7 +689,7 @@ def randint_exclude(key, sup, exclude):
     num_allowed = sup - jnp.count_nonzero(exclude < sup)
     u = random.randint(key, (), 0, num_allowed)
     def loop(u, i):
-        return jnp.where(i <= u, u + 1, u), None
+        return jnp.where((i <= u) & (i < sup), u + 1, u), None
     u, _ = lax.scan(loop, u, exclude)
     return u
 
-- 
2.43.0


From 8bdbb709326b32c347a5b038c54884d6fc377e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:18 +0000
Subject: [PATCH 08/12] fix: avoid integer overflow in the distribution of
 points per leaf

---
 src/bartz/debug.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/debug.py b/src/bartz/debug.py
index 868ab35..03f83c8 100644
--- a/src/bartz/debug.py
+++ b/src/bartz/debug.py
@@ -86,7 +86,7 @@ def points_per_leaf_distr(var_tree, split_tree, X):
     indices = traverse_tree(X, var_tree, split_tree)
     count_tree = jnp.zeros(2 * split_tree.size, dtype=jaxext.minimal_unsigned_dtype(indices.size))
     count_tree = count_tree.at[indices].add(1)
-    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).view(jnp.uint8)
+    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True).astype(int)
     return jnp.bincount(count_tree, is_leaf, length=X.shape[1] + 1)
 
 def forest_points_per_leaf_distr(bart, X):
-- 
2.43.0


From f5ca9c07ff7ee9b1ac603d04c4e390045c2becc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:35 +0000
Subject: [PATCH 09/12] fix: support unsigned 32 bit predictors when making
 quantile bins

---
 src/bartz/jaxext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 7e67219..f2bf06e 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -110,7 +110,7 @@ def huge_value(x):
         The maximum value allowed by `x`'s type (+inf for floats).
     """
     if jnp.issubdtype(x.dtype, jnp.integer):
-        return jnp.iinfo(x.dtype).max
+        return x.dtype.type(jnp.iinfo(x.dtype).max)
     else:
         return jnp.inf
 
-- 
2.43.0


From 9774d07e3ff6687686015904c18ab7b59f2eb891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 10/12] fix: keep the type of the leaves when small_float is
 not float32

---
 src/bartz/mcmcstep.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 04d5537..85ae2b6 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -1348,7 +1348,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     resid_tree = sum_resid(resid, leaf_indices, leaf_tree.size, resid_batch_size)
 
     # subtract starting tree from function
-    resid_tree += count_tree * leaf_tree
+    resid_tree += count_tree * leaf_tree.astype(resid_tree.dtype)
 
     # get indices of move
     node = move['node']
@@ -1382,7 +1382,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     # compute leaves posterior and sample leaves
     initial_leaf_tree = leaf_tree
     mean_post = resid_tree * prelf['mean_factor']
-    leaf_tree = mean_post + prelf['centered_leaves']
+    leaf_tree = (mean_post + prelf['centered_leaves']).astype(leaf_tree.dtype)
 
     # copy leaves around such that the leaf indices select the right leaf
     to_prune = acc ^ move['grow']
@@ -1394,7 +1394,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     )
 
     # replace old tree with new tree in function values
-    resid += (initial_leaf_tree - leaf_tree)[leaf_indices]
+    resid += (initial_leaf_tree.astype(resid.dtype) - leaf_tree)[leaf_indices]
 
     return resid, leaf_tree, acc, to_prune, ratios
 
-- 
2.43.0


From 7268703e3f8220eda91262af45a82732656dc364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:53 +0000
Subject: [PATCH 11/12] fix: keep the types of the state when large_float is
 not the default float type

---
 src/bartz/mcmcstep.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 85ae2b6..e6fae77 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -210,8 +210,8 @@ def init(*,
 
     if save_ratios:
         bart['ratios'] = dict(
-            log_trans_prior=jnp.full(num_trees, jnp.nan),
-            log_likelihood=jnp.full(num_trees, jnp.nan),
+            log_trans_prior=jnp.full(num_trees, jnp.nan, large_float),
+            log_likelihood=jnp.full(num_trees, jnp.nan, large_float),
         )
 
     return bart
@@ -1369,8 +1369,8 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     ratios = {}
     if save_ratios:
         ratios.update(
-            log_trans_prior=move['log_trans_prior_ratio'],
-            log_likelihood=log_lk_ratio,
+            log_trans_prior=move['log_trans_prior_ratio'].astype(resid.dtype),
+            log_likelihood=log_lk_ratio.astype(resid.dtype),
         )
 
     # determine whether to accept the move
@@ -1394,7 +1394,7 @@ def accept_move_and_sample_leaves(X, ntree, resid_batch_size, resid, min_points_
     )
 
     # replace old tree with new tree in function values
-    resid += (initial_leaf_tree.astype(resid.dtype) - leaf_tree)[leaf_indices]
+    resid += (initial_leaf_tree.astype(resid.dtype) - leaf_tree)[leaf_indices].astype(resid.dtype)
 
     return resid, leaf_tree, acc, to_prune, ratios
 
@@ -1571,7 +1571,7 @@ def sample_sigma(bart, key):
     norm2 = jnp.dot(resid, resid, preferred_element_type=bart['opt']['large_float'])
     beta = bart['sigma2_beta'] + norm2 / 2
 
-    sample = random.gamma(key, alpha)
+    sample = random.gamma(key, alpha, dtype=alpha.dtype)
     bart['sigma2'] = beta / sample
 
     return bart
-- 
2.43.0


From cb5e85874e1146e28f5329aa61fe69bdd47216d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:19 +0000
Subject: [PATCH 12/12] fix: convert integer responses to float before
 computing with them

The range of the response, or its difference with the prior mean, could
overflow the integer type of the response, e.g., the scale was negative
with int8 values from -100 to 100.
---
 src/bartz/BART.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index 14df0db..c687b67 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -276,6 +276,8 @@ class gbart:
         else:
             fmt = dict(kind='array')
         y = jnp.asarray(y)
+        if jnp.issubdtype(y.dtype, jnp.integer):
+            y = y.astype(float) # the arithmetic on y could overflow
         assert y.ndim == 1
         return y, fmt
 
-- 
2.43.0

