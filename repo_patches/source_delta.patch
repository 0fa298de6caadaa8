From abc3e236e89156390acc20d0402019eb60903a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 01/23] fix: materialize sparse Jacobians in the complex abs
 Hessian rule

Sparse Jacobians may store several values for one input. Taking products of
the raw data dropped the cross terms between such entries.
---
 folx/custom_hessian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/folx/custom_hessian.py b/folx/custom_hessian.py
index f1d0db6..f383dbd 100644
--- a/folx/custom_hessian.py
+++ b/folx/custom_hessian.py
@@ -70,7 +70,9 @@ def complex_abs_jac_hessian_jac(
     if not is_tree_complex(args.x):
         return jnp.zeros(())
 
-    x, J = args.x[0], args.jacobian[0].data
+    # Sparse jacobians may store several values for the same input, so we have to
+    # materialize them before taking products.
+    x, J = args.x[0], args.jacobian[0].construct_jac_for(materialize_idx)
     y, J_abs = jnp.abs(x), jnp.abs(J)
 
     x_J = x.real * J.real + x.imag * J.imag
-- 
2.43.0


From bf4d51524fe241a97f02f6c5115ca2c1ef92064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 02/23] fix: only skip the transpositions in dot_general where
 the layout agrees

The short-cut summed over the left operand's positive axes after broadcasting
and ignored the batch/free order of the result, giving wrong results for
operands of different rank, batched mat-vec products and unit free dims.
---
 folx/wrapped_functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/folx/wrapped_functions.py b/folx/wrapped_functions.py
index 3cb7902..1273ef7 100644
--- a/folx/wrapped_functions.py
+++ b/folx/wrapped_functions.py
@@ -147,14 +147,18 @@ def dot_general(
             and rh_brdcast_dims == tuple(range(len(rh_brdcast_dims)))
             and lh_batch_dims == tuple(sorted(lh_batch_dims))
             and rh_batch_dims == tuple(sorted(rh_batch_dims))
+            and not (lh_brdcast_dims and rh_brdcast_dims)
+            and not (lh_batch_dims and (lh_brdcast_dims or rh_brdcast_dims))
         ):
             # The checks above do the following:
             # * check that batch dims are identical in both
             # * check that contract dim are identical in both
             # * check that all brdcast dims are at the beginning
             # * check that no transpositions are needed
+            # * check that the result has either only batch dims or only the
+            #   brdcast dims of one of the two arguments
             # Special case where we can skip the transpositions
-            return fwd_lapl_mul_sum(lhs, rhs, lh_contract)  # type: ignore
+            return fwd_lapl_mul_sum(lhs, rhs, neg_lh_contract)  # type: ignore
         return fwd_lapl_mul_sum(left_inp, right_inp, -1)
 
     # ====================================================================================
-- 
2.43.0


From e3464a4ce0c6aba1d0be3b18d22f0cd8a8f08074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 03/23] fix: do not reuse the operand's Jacobian for
 overwriting scatters

If only the operand of an indexing scatter is differentiated, the entries
replaced by the update kept their old derivatives.
---
 folx/jvp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index 6b638ab..e2ffe40 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -344,7 +344,13 @@ def sparse_scatter_jvp(
     operand, scatter_indices, updates = merge(laplace_args.arrays, extra_args)  # type: ignore
     if isinstance(scatter_indices, FwdLaplArray):
         return dense_jvp(fwd, laplace_args, flags=flags, in_axes=in_axes)
-    if not isinstance(updates, FwdLaplArray) and FunctionFlags.LINEAR in flags:
+    if (
+        not isinstance(updates, FwdLaplArray)
+        and FunctionFlags.LINEAR in flags
+        and FunctionFlags.INDEXING not in flags
+    ):
+        # Indexing scatters overwrite the entries of the operand, i.e., its jacobian
+        # does not carry over.
         # operand must be a fwdlapl array by exclusion since at least one has to be.
         y: Array = fwd(*laplace_args.x)  # type: ignore
         grad_y: FwdJacobian = operand.jacobian  # type: ignore
-- 
2.43.0


From 68b777387e2d8e943cdf2c98f0c07a95f95fe448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 04/23] fix: compare only index patterns of equal length when
 adding Jacobians

Adding sparse Jacobians with different numbers of entries per output raised a
ValueError (or repeated the single entry of one of them).
---
 folx/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index fd677d2..229c243 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -213,7 +213,10 @@ class FwdJacobian(NamedTuple):
 
             return FwdJacobian(add_jacobians(self.as_dense.data, other.as_dense.data))
         # If both are weak, we can keep them sparse
-        if (other.x0_idx == self.x0_idx).all():
+        if (
+            other.x0_idx.shape[JAC_DIM] == self.x0_idx.shape[JAC_DIM]  # type: ignore
+            and (other.x0_idx == self.x0_idx).all()
+        ):
             return FwdJacobian(
                 self.data + other.data,
                 np.broadcast_arrays(self.x0_idx, other.x0_idx)[0],
-- 
2.43.0


From d5f5c3d01ec0a96c677e788e23b3d45af93cc96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 05/23] fix: read literal operands as arrays

Python scalars in the traced program, e.g. lax.pow(x, 2.5) or lax.clamp with
scalar bounds, crashed the rules, which expect array operands.
---
 folx/interpreter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 6678e4a..e21a93f 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -58,7 +58,8 @@ class JaxExprEnvironment:
 
     def read(self, var: core.Atom) -> ArrayOrFwdLaplArray:
         if isinstance(var, core.Literal):
-            return var.val
+            # Literals may be Python scalars but the rules expect arrays.
+            return np.asarray(var.val, dtype=var.aval.dtype)  # type: ignore
         self.reference_counter[var] -= 1
         result = self.env[var]
         if self.reference_counter[var] == 0:
-- 
2.43.0


From aa27cc2ed4fb1b98398714268c6105b9586aae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 06/23] fix: allow scanning over numpy arrays and literals

Inputs that do not depend on the differentiated arguments may be numpy arrays,
e.g. constants of the traced program.
---
 folx/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index e21a93f..05b7e9d 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -93,7 +93,7 @@ def eval_jaxpr_with_forward_laplacian(
         )
         carry_merge = extract_jacobian_mask(in_carry)
         assert all(
-            isinstance(x, Array) for x in in_inp
+            not isinstance(x, FwdLaplArray) for x in in_inp
         ), 'Scan does not support scanning over input depenedent tensors.\nPlease unroll the loop.'
 
         def wrapped(carry, x):
-- 
2.43.0


From b1324d8b4332ab211cb1e712342305cf03c10f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 07/23] fix: do not reject constant loop carries that change
 their array class

The integer counter of a fori_loop is a literal on entry and an array after the
first step. Only a change between plain and differentiated values is an error.
---
 folx/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 05b7e9d..65496b8 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -110,7 +110,7 @@ def eval_jaxpr_with_forward_laplacian(
         first_carry, first_y = wrapped(in_carry, jtu.tree_map(lambda x: x[0], in_inp))
         # Check whether jacobian sparsity matches
         for a, b in zip(in_carry, first_carry):
-            if not isinstance(a, type(b)):
+            if isinstance(a, FwdLaplArray) != isinstance(b, FwdLaplArray):
                 raise TypeError(f'Type mismatch in scan: {type(a)} != {type(b)}')
             if isinstance(a, FwdLaplArray):
                 if not np.all(a.jacobian.x0_idx == b.jacobian.x0_idx):  # type: ignore
-- 
2.43.0


From 6519177048c149e213ac7f29ec8d635ff4f54a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:48 +0000
Subject: [PATCH 08/23] fix: keep the input axis first in Jacobians of stacked
 scan outputs

jax.lax.scan stacks along the leading axis, which is the input axis of a
Jacobian. The index pattern was additionally missing the loop axis.
---
 folx/interpreter.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 65496b8..3ebd007 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -129,10 +129,17 @@ def eval_jaxpr_with_forward_laplacian(
             else a
             for a, b in zip(carry, first_carry)
         ]
+
+        def stack_jacobian(a, b):
+            # The scan stacks along the first axis but the first axis of the jacobian
+            # must be the input axis.
+            data, x0_idx = jnp.moveaxis(a.jacobian.data, 0, 1), None
+            if a.jacobian.x0_idx is not None:
+                x0_idx = np.repeat(b.jacobian.x0_idx[:, None], data.shape[1], axis=1)
+            return a._replace(jacobian=FwdJacobian(data, x0_idx))
+
         y = [
-            a._replace(jacobian=a.jacobian._replace(x0_idx=b.jacobian.x0_idx))  # type: ignore
-            if isinstance(a, FwdLaplArray)
-            else a
+            stack_jacobian(a, b) if isinstance(a, FwdLaplArray) else a
             for a, b in zip(y, first_y)
         ]
         return *carry, *y
-- 
2.43.0


From 45797645ea33dee59de786ab3ae51a2be9d63aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 09/23] fix: support functions with several results on the
 sparse path

custom_jvp functions (e.g. relu), sort and cond return lists of results, which
the sparse Jacobian propagation could not handle.
---
 folx/jvp.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/folx/jvp.py b/folx/jvp.py
index e2ffe40..da80fdb 100644
--- a/folx/jvp.py
+++ b/folx/jvp.py
@@ -1,5 +1,6 @@
 import functools
 import logging
+import operator
 from typing import Sequence, TypeVar
 
 import jax
@@ -113,6 +114,13 @@ def sparse_sum_jvp(
     return y, FwdJacobian(out_jac, idx_out), y_lapl
 
 
+def attach_mask(mask: np.ndarray, grad: Array) -> FwdJacobian:
+    # Functions may have several results, so this is applied to each of them.
+    mask = broadcast_mask_to_jacobian(mask, grad)
+    assert grad.shape == mask.shape, f'{grad.shape} != {mask.shape}'
+    return FwdJacobian(grad, mask)
+
+
 def sparse_jvp(
     fwd: ForwardFn,
     laplace_args: FwdLaplArgs,
@@ -180,10 +188,7 @@ def sparse_jvp(
     grad_y = tree_take(y_tangent, slice(None, -1), axis=JAC_DIM)
     lapl_y = tree_take(y_tangent, -1, axis=JAC_DIM)
 
-    new_masks = broadcast_mask_to_jacobian(out_mask, grad_y)
-    assert grad_y.shape == new_masks.shape, f'{grad_y.shape} != {new_masks.shape}'
-
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, new_masks)
+    grad_y = jtu.tree_map(functools.partial(attach_mask, out_mask), grad_y)
     return y, grad_y, lapl_y
 
 
@@ -245,10 +250,7 @@ def sparse_diag_jvp(
 
     # We need to broadcast the output mask to the shape of the gradient in case the operation
     # included some broadcasting, e.g., (10, 1) * (5,) -> (10, 5)
-    result_mask = broadcast_mask_to_jacobian(result_mask, grad_y)
-    assert grad_y.shape == result_mask.shape, f'{grad_y.shape} != {result_mask.shape}'
-
-    grad_y = jtu.tree_map(FwdJacobian, grad_y, result_mask)
+    grad_y = jtu.tree_map(functools.partial(attach_mask, result_mask), grad_y)
     return y, grad_y, lapl_y
 
 
@@ -566,8 +568,14 @@ def get_jvp_function(
             if y is None:
                 y, grad, lapl = y_, grad_, lapl_
             else:
-                grad += grad_  # type: ignore
-                lapl += lapl_
+                # The function may have several results
+                grad = jtu.tree_map(
+                    operator.add,
+                    grad,
+                    grad_,
+                    is_leaf=lambda x: isinstance(x, FwdJacobian),
+                )
+                lapl = jtu.tree_map(operator.add, lapl, lapl_)
         return y, grad, lapl  # type: ignore
 
     def jvp(args: FwdLaplArgs, kwargs) -> tuple[Array, FwdJacobian, Array]:
-- 
2.43.0


From 78deb46fe3808e073855bc1adf25930554dd4999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 10/23] fix: do not convert traced index masks to numpy arrays

Products of a dense and a sparse scalar, e.g. x.sum() * x[0], raised a
TracerArrayConversionError under jit.
---
 folx/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/api.py b/folx/api.py
index 229c243..de5f0ea 100644
--- a/folx/api.py
+++ b/folx/api.py
@@ -129,7 +129,7 @@ class FwdJacobian(NamedTuple):
             indices = jnp.where(jnp.any(matching, axis=-1), indices, -1)
             return indices
 
-        if isinstance(outputs, np.ndarray):
+        if isinstance(outputs, np.ndarray) and isinstance(mask, np.ndarray):
             with jax.ensure_compile_time_eval():
                 result = np.asarray(get_indices(flat_mask, flat_outputs), dtype=int).T
         else:
-- 
2.43.0


From bcae24293119c494d7687a227988b1d1a10452e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 11/23] fix: return the Laplacian instead of the Hessian
 diagonal

The loop and parallel operators returned the vector of unmixed second
derivatives while the forward operator returns their sum.
---
 folx/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/folx/operators.py b/folx/operators.py
index 290033b..c78dcc7 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -57,7 +57,7 @@ class LoopLaplacianOperator(LaplacianOperator):
             _, laplacian = jax.lax.scan(
                 lambda i, _: (i + 1, dgrad_f(eye[i])[i]), 0, None, length=n
             )
-            return laplacian, jacobian
+            return jnp.sum(laplacian), jacobian
 
         return laplacian
 
@@ -74,6 +74,6 @@ class ParallelLaplacianOperator(LaplacianOperator):
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
             laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
-            return laplacian, jacobian
+            return jnp.sum(laplacian), jacobian
 
         return laplacian
-- 
2.43.0


From 8cc91ae457d9a170d9bb387405bc296e95036e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 12/23] fix: call the function with its original input shape in
 the parallel operator

---
 folx/operators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/operators.py b/folx/operators.py
index c78dcc7..940c804 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -67,10 +67,11 @@ class ParallelLaplacianOperator(LaplacianOperator):
     def __call__(f):
         @jax.jit
         def laplacian(x: jax.Array):
+            x_shape = x.shape
             x = x.reshape(-1)
             n = x.shape[0]
             eye = jnp.eye(n, dtype=x.dtype)
-            grad_f = jax.grad(f)
+            grad_f = jax.grad(lambda x: f(x.reshape(x_shape)))
             jacobian, dgrad_f = jax.linearize(grad_f, x)
 
             laplacian = jnp.diagonal(jax.vmap(dgrad_f)(eye))
-- 
2.43.0


From eae964106f49b9cdbe69b9f6ced358031e604ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 13/23] fix: return the full gradient from the forward operator

With sparsity the gradient was cut off behind the last input the function
depends on.
---
 folx/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/operators.py b/folx/operators.py
index 940c804..d5461ca 100644
--- a/folx/operators.py
+++ b/folx/operators.py
@@ -33,7 +33,10 @@ class ForwardLaplacianOperator(LaplacianOperator):
 
         def lap(x: Array):
             result = fwd_lapl(x)
-            return result.laplacian, result.jacobian.dense_array
+            # Materialized sparse jacobians stop at the last input they depend on.
+            jacobian = result.jacobian.dense_array
+            jacobian = jnp.pad(jacobian, (0, x.size - jacobian.shape[0]))
+            return result.laplacian, jacobian
 
         return lap
 
-- 
2.43.0


From 6f13e89e697619ce3f6deea9611ce9d5e3848ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 14/23] fix: check the batch sizes in batched_vmap

The assertion tested the truth of a generator object.
---
 folx/vmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/vmap.py b/folx/vmap.py
index 74a45a3..23e832d 100644
--- a/folx/vmap.py
+++ b/folx/vmap.py
@@ -37,7 +37,7 @@ def batched_vmap(
             return tuple(next(x_iter) if m else next(y_iter) for m in mask)
 
         batch_size = jtu.tree_leaves(mapped_args[0])[0].shape[mapped_axes[0]]
-        assert (
+        assert all(
             batch_size == x.shape[ax]
             for arg, ax in zip(mapped_args, mapped_axes)
             for x in jtu.tree_leaves(arg)
-- 
2.43.0


From 28581976ca4c554c0b0551866cabb129488f7b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 15/23] fix: keep each input's dtype in the dense initial
 jacobian

Raveling the weights promoted them to a common dtype, so with inputs of
different dtypes (e.g. float32 and complex64) the dense seed of the
narrower input had a tangent type that jax.linearize rejects, or imaginary
parts that were discarded with a warning.
---
 folx/interpreter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 3ebd007..2969ff1 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -255,7 +255,10 @@ def init_forward_laplacian_state(
         jacobian = jtu.tree_map(FwdJacobian, jac, jac_idx)
         jacobian = jtu.tree_map(lambda x: x[None], jacobian)
     else:
-        jacobian = jax.vmap(unravel)(jnp.diag(ravel(jac)[0]))
+        # Raveling would promote all inputs to a common dtype, but each jacobian must
+        # keep the dtype of its input.
+        eye = jax.vmap(unravel)(jnp.eye(x_flat.shape[0], dtype=bool))
+        jacobian = jtu.tree_map(lambda e, j: jnp.where(e, j, 0), eye, jac)
         jacobian = jtu.tree_map(FwdJacobian.from_dense, jacobian)
     lapl_x = jtu.tree_map(jnp.zeros_like, x)
     return jtu.tree_map(FwdLaplArray, x, jacobian, lapl_x)
-- 
2.43.0


From 1fd0adfff7e9fc453a669773bd5c918080b1745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:10 +0000
Subject: [PATCH 16/23] fix: bind keyword arguments before tracing the function

Keyword arguments were traced as additional inputs of the jaxpr, but only
the positional arguments were passed to its evaluation. So every call with
a keyword argument failed.
---
 folx/interpreter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/folx/interpreter.py b/folx/interpreter.py
index 2969ff1..b6e163e 100644
--- a/folx/interpreter.py
+++ b/folx/interpreter.py
@@ -294,7 +294,10 @@ def forward_laplacian(
         args_arr = jtu.tree_map(
             lambda x: x.x if IS_LPL_ARR(x) else x, args, is_leaf=IS_LEAF
         )
-        closed_jaxpr = jax.make_jaxpr(fn)(*args_arr, **kwargs)
+        # We do not differentiate with respect to keyword arguments. If we traced them,
+        # they would become additional inputs of the jaxpr.
+        fn_args = functools.partial(fn, **kwargs)
+        closed_jaxpr = jax.make_jaxpr(fn_args)(*args_arr)
         flat_args = jtu.tree_leaves(args, is_leaf=IS_LEAF)
         if 0 < sparsity_threshold < 1:
             threshold = int(sparsity_threshold * sum(x.size for x in flat_args))
@@ -309,7 +312,7 @@ def forward_laplacian(
             *lapl_args,
             sparsity_threshold=threshold,
         )
-        out_structure = jtu.tree_structure(jax.eval_shape(fn, *args_arr, **kwargs))
+        out_structure = jtu.tree_structure(jax.eval_shape(fn_args, *args_arr))
         return out_structure.unflatten(out)
 
     if disable_jit:
-- 
2.43.0


From 49e0d281e51ad88205419f0938d38cad73e9f602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 17/23] fix: memory estimation frees operands that occur twice
 only once

---
 folx/experimental/memory.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0f00a3b..9ddd277 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -71,14 +71,18 @@ class MemoryExprEnvironment:
         return safe_map(self.write, vars, vals)
 
     def _free_memory(self, var: core.Atom, val: Array):
-        if isinstance(var, core.Literal):
-            return
         if self.reference_counter[var] == 0:
             v = jnp.asarray(val)
             self.memory -= v.size * _bytes_from_dtype(v.dtype)
 
     def free_memory(self, vars: Sequence[core.Atom], vals: Sequence[Array]):
-        safe_map(self._free_memory, vars, vals)
+        # A variable may occur several times among the operands of an equation.
+        freed = set()
+        for var, val in zip(vars, vals):
+            if isinstance(var, core.Literal) or var in freed:
+                continue
+            freed.add(var)
+            self._free_memory(var, val)
 
 
 def _compute_jaxpr_memory(
-- 
2.43.0


From 0e6210147ca5b3c336e88d1a04538f371264a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 18/23] fix: memory estimation of loops without inputs

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 9ddd277..8e3659d 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -123,7 +123,7 @@ def _compute_jaxpr_memory(
             )
             # populate the results by the loop size
             ans[n_carry:] = jtu.tree_map(
-                lambda x: jnp.repeat(x[None], in_inp[0].shape[0], axis=0),
+                lambda x: jnp.repeat(x[None], eqn.params['length'], axis=0),
                 ans[n_carry:],
             )
             all_tensors += sub_tensors
-- 
2.43.0


From 66360aa87ef00707661a2056bd29d8f7801af49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 19/23] fix: memory estimation of functions with keyword
 arguments

---
 folx/experimental/memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 8e3659d..2c994cf 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -213,7 +213,7 @@ def compute_memory(
     # Here we abuse the eval_shape function to avoid actually computing something.
     # Instead the function prints to correct usage
     with Capturing() as output:
-        jax.eval_shape(fn, *jtu.tree_leaves(args))
+        jax.eval_shape(fn, *jtu.tree_leaves((args, kwargs)))
 
     # Print everything except the last line
     if len(output) > 1:
-- 
2.43.0


From efae9bae94fb173eeb92bae24e664b7028282e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 20/23] fix: memory estimation with negative static argument
 numbers

---
 folx/experimental/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 2c994cf..0c6f130 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -208,7 +208,8 @@ def compute_memory(
         closed_jaxpr.literals,
         print_top_tensors=print_top_tensors,
     )
-    # remove statics
+    # remove statics, negative numbers count from the end
+    static_argnums = tuple(i % len(args) for i in static_argnums)
     args = tuple(args[i] for i in range(len(args)) if i not in static_argnums)
     # Here we abuse the eval_shape function to avoid actually computing something.
     # Instead the function prints to correct usage
-- 
2.43.0


From b78f9167b122b0589d9f64e3211f584c7a81b23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 21/23] fix: memory estimation of random keys and sub-byte
 types

---
 folx/experimental/memory.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/folx/experimental/memory.py b/folx/experimental/memory.py
index 0c6f130..d50c3ce 100644
--- a/folx/experimental/memory.py
+++ b/folx/experimental/memory.py
@@ -14,11 +14,7 @@ from jax.util import safe_map
 
 
 def _bytes_from_dtype(dtype):
-    import re
-
-    if str(dtype) == 'bool':
-        return 1
-    return int(re.findall(r'\d+', str(dtype))[0]) // 8
+    return dtype.itemsize
 
 
 class MemoryExprEnvironment:
-- 
2.43.0


From 49d0315ebbc3e7e0de79e0feddb08e19cd851237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 22/23] fix: automatic batching falls back for functions
 without a name

---
 folx/experimental/vmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index bb02b6c..75614c1 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -66,7 +66,8 @@ def auto_batched_vmap(
                 max_samples = max(max_samples, 1)
             return vmapped_fn(max_samples)(*args, **kwargs)
         except Exception as e:
-            logging.warn(f'Failed to auto batch {fn.__name__}: {e}')
+            name = getattr(fn, '__name__', repr(fn))
+            logging.warn(f'Failed to auto batch {name}: {e}')
             logging.warn('Defaulting to batch size 1.')
             return vmapped_fn(max_batch_size=1)(*args, **kwargs)
 
-- 
2.43.0


From 1f51c309e34ddc6611af71fc88f7683c61d3ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:23 +0000
Subject: [PATCH 23/23] fix: automatic batching falls back on devices without
 memory statistics

---
 folx/experimental/vmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/folx/experimental/vmap.py b/folx/experimental/vmap.py
index 75614c1..b41be57 100644
--- a/folx/experimental/vmap.py
+++ b/folx/experimental/vmap.py
@@ -33,14 +33,14 @@ def auto_batched_vmap(
     Returns:
         The batched function.
     """
-    mem = jax.devices()[0].memory_stats()['bytes_limit']  # type: ignore
-    target_mem = mem * max_fraction
-
     vmapped_fn = functools.partial(batched_vmap, fn, in_axes=in_axes, out_axes=out_axes)
 
     @functools.wraps(fn)
     def result(*args, **kwargs):
         try:
+            # Not every device knows its memory.
+            mem = jax.devices()[0].memory_stats()['bytes_limit']  # type: ignore
+            target_mem = mem * max_fraction
             single_fn = vmapped_fn(max_batch_size=1)
             pair_fn = vmapped_fn(max_batch_size=2)
             with jax.ensure_compile_time_eval():
-- 
2.43.0

