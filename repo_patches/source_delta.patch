From c475db9e258cd02438afc358779ce0d13a5a396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:38 +0000
Subject: [PATCH 01/13] fix: place the initial golden-section midpoint inside
 the interval

The first midpoint was computed as a distance rather than a position.
Any search with a non-zero lower bound therefore started outside the
interval and did not converge.
---
 optimistix/_solver/golden.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/golden.py b/optimistix/_solver/golden.py
index bb5ca05..e04c1e7 100644
--- a/optimistix/_solver/golden.py
+++ b/optimistix/_solver/golden.py
@@ -81,7 +81,7 @@ class GoldenSearch(AbstractMinimiser[Float[Array, ""], Aux, _GoldenSearchState])
         # length a and b, respectively. The ratio of their lengths, b / a, is equal
         # to the golden ratio.
         golden_ratio = (1 + math.sqrt(5)) / 2
-        middle = (upper - lower) / (golden_ratio + 1)
+        middle = lower + (upper - lower) / (golden_ratio + 1)
 
         f_middle, _ = fn(middle, args)
 
-- 
2.43.0


From a100e20439af07fc0372357a1bb1a868e6b0c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:38 +0000
Subject: [PATCH 02/13] fix: correct the sign of beta for Hestenes-Stiefel and
 Dai-Yuan

Both formulas divide by the inner product of the previous search
direction and the change in gradient. That inner product was negated,
which flipped the sign of beta and badly slowed convergence.
---
 optimistix/_solver/nonlinear_cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nonlinear_cg.py b/optimistix/_solver/nonlinear_cg.py
index 73ed02b..d9a8ecf 100644
--- a/optimistix/_solver/nonlinear_cg.py
+++ b/optimistix/_solver/nonlinear_cg.py
@@ -52,7 +52,7 @@ def hestenes_stiefel(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     [`optimistix.NonlinearCGDescent`][]."""
     grad_diff = (grad**ω - grad_prev**ω).ω
     numerator = tree_dot(grad, grad_diff)
-    denominator = -tree_dot(y_diff_prev, grad_diff)
+    denominator = tree_dot(y_diff_prev, grad_diff)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
@@ -63,7 +63,7 @@ def dai_yuan(grad: Y, grad_prev: Y, y_diff_prev: Y) -> Scalar:
     """The Dai--Yuan formula for β. Used with [`optimistix.NonlinearCG`][] and
     [`optimistix.NonlinearCGDescent`][]."""
     numerator = sum_squares(grad)
-    denominator = -tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
+    denominator = tree_dot(y_diff_prev, (grad**ω - grad_prev**ω).ω)
     # Triggers at initialisation and convergence, as above.
     pred = jnp.abs(denominator) > jnp.finfo(denominator.dtype).eps
     safe_denom = jnp.where(pred, denominator, 1)
-- 
2.43.0


From f7ba75f7820ab728e242e7d84ffba21d38f07aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:22:38 +0000
Subject: [PATCH 03/13] fix: honour the norm option of compat.minimize

The documented `norm` option was popped and then discarded, so errors
were always measured with the max norm.
---
 optimistix/compat/_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/compat/_impl.py b/optimistix/compat/_impl.py
index ee15e42..0ed2e8d 100644
--- a/optimistix/compat/_impl.py
+++ b/optimistix/compat/_impl.py
@@ -97,14 +97,14 @@ def minimize(
     else:
         options = dict(options)
     max_steps = options.pop("maxiter", None)
-    options.pop("norm", max_norm)
+    norm = options.pop("norm", max_norm)
     if len(options) != 0:
         raise ValueError(f"Unsupported options: {set(options.keys())}")
 
     def wrapped_fn(y, args):
         return fun(y, *args)
 
-    solver = BFGS(rtol=tol, atol=tol, norm=max_norm)
+    solver = BFGS(rtol=tol, atol=tol, norm=norm)
     sol = minimise(wrapped_fn, solver, x0, args, max_steps=max_steps, throw=False)
     status = jnp.where(
         sol.result == RESULTS.successful,
-- 
2.43.0


From 75c81383d39096057d22a010c5210c4d0a2aaac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:23:04 +0000
Subject: [PATCH 04/13] fix: report the best vertex of the updated Nelder-Mead
 simplex

The indices of the best and worst vertices refer to the updated simplex,
but were used to index the previous one. The returned point could then
be the vertex that had just been discarded.
---
 optimistix/_solver/nelder_mead.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index d3ff013..0626f79 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -384,8 +384,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
         f_best = -f_best_neg
         (f_worst, f_second_worst), (worst_index, _) = lax.top_k(f_new_simplex, 2)
         _structured_index = lambda a, b: jtu.tree_map(lambda _, x: x[b], y, a)
-        best = _structured_index(simplex, best_index)
-        worst = _structured_index(simplex, worst_index)
+        best = _structured_index(new_simplex, best_index)
+        worst = _structured_index(new_simplex, worst_index)
         new_state = _NelderMeadState(
             simplex=new_simplex,
             f_simplex=f_new_simplex,
@@ -404,7 +404,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             y0_simplex = False
 
         if y0_simplex:
-            out = simplex
+            out = new_simplex
         else:
             out = best
 
-- 
2.43.0


From ca266b09d2fd4ed97903f4b589aa61d4e312a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:30:25 +0000
Subject: [PATCH 05/13] fix: count Nelder-Mead reflections and outer
 contractions correctly

Outer contractions were counted on every plain reflection instead of on
contractions outside the simplex. Reflections that tied with the best or
second-worst value were not counted at all.
---
 optimistix/_solver/nelder_mead.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index 0626f79..ae03865 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -257,8 +257,8 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
                     expand = f_vertex < f_best
                     inner_contract = f_vertex > f_worst
                     contract = f_vertex > f_second_worst
-                    outer_contract = jnp.invert(expand | contract)
-                    reflect = (f_vertex > f_best) & (f_vertex < f_second_worst)
+                    outer_contract = contract & jnp.invert(inner_contract)
+                    reflect = jnp.invert(expand | contract)
                     contract_const = jnp.where(inner_contract, in_const, out_const)
                     #
                     # NOTE: Throughout, we use worst + const * search_direction, not
-- 
2.43.0


From a3fb429411377d0f5cb881bf7b2c35b43e5541b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 06/13] fix: allocate the L-BFGS history in the dtype of the
 iterate

The history buffers used the default floating dtype. With 64-bit mode
enabled, solving a float32 problem failed with a dtype mismatch.
---
 optimistix/_solver/limited_memory_bfgs.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/optimistix/_solver/limited_memory_bfgs.py b/optimistix/_solver/limited_memory_bfgs.py
index f90ee4f..846fe17 100644
--- a/optimistix/_solver/limited_memory_bfgs.py
+++ b/optimistix/_solver/limited_memory_bfgs.py
@@ -16,6 +16,7 @@ from .._misc import (
     filter_cond,
     max_norm,
     tree_dot,
+    tree_dtype,
 )
 from .._search import (
     FunctionInfo,
@@ -271,7 +272,7 @@ def _lbfgs_hessian_operator_fn(
         [
             [
                 jnp.diag(sqrt_diag),
-                jnp.zeros((state.history_length, state.history_length)),
+                jnp.zeros_like(state.y_diff_grad_diff_cross_inner),
             ],
             [-state.y_diff_grad_diff_cross_inner / sqrt_diag[jnp.newaxis], J],
         ]
@@ -296,7 +297,7 @@ def _lbfgs_hessian_operator_fn(
 
 
 def _batched_tree_zeros_like(y, batch_dimension):
-    return jtu.tree_map(lambda y: jnp.zeros((batch_dimension, *y.shape)), y)
+    return jtu.tree_map(lambda x: jnp.zeros((batch_dimension, *x.shape), x.dtype), y)
 
 
 class AbstractLBFGS(AbstractQuasiNewton[Y, Aux, _Hessian, _LBFGSUpdateState]):
@@ -320,7 +321,7 @@ class AbstractLBFGS(AbstractQuasiNewton[Y, Aux, _Hessian, _LBFGSUpdateState]):
                 history_length=self.history_length,
                 y_diff_history=_batched_tree_zeros_like(y, self.history_length),
                 grad_diff_history=_batched_tree_zeros_like(y, self.history_length),
-                inner_history=jnp.zeros(self.history_length),
+                inner_history=jnp.zeros(self.history_length, tree_dtype(y)),
             )
             operator = lx.FunctionLinearOperator(
                 lambda y: _lbfgs_inverse_hessian_operator_fn(y, state),
@@ -336,10 +337,10 @@ class AbstractLBFGS(AbstractQuasiNewton[Y, Aux, _Hessian, _LBFGSUpdateState]):
                 y_diff_history=_batched_tree_zeros_like(y, self.history_length),
                 grad_diff_history=_batched_tree_zeros_like(y, self.history_length),
                 y_diff_grad_diff_cross_inner=jnp.zeros(
-                    (self.history_length, self.history_length)
+                    (self.history_length, self.history_length), tree_dtype(y)
                 ),
-                y_diff_grad_diff_inner=jnp.ones(self.history_length),
-                y_diff_cross_inner=jnp.eye(self.history_length),
+                y_diff_grad_diff_inner=jnp.ones(self.history_length, tree_dtype(y)),
+                y_diff_cross_inner=jnp.eye(self.history_length, dtype=tree_dtype(y)),
             )
             operator = lx.FunctionLinearOperator(
                 lambda y: _lbfgs_hessian_operator_fn(y, state),
-- 
2.43.0


From ca6c6701dac2224d7227bee21eb7021a2382012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 07/13] fix: keep float32 iterates in Levenberg-Marquardt and
 Dogleg

With 64-bit mode enabled, these solvers mixed float64 scalars into a
float32 problem and failed while tracing.
---
 optimistix/_solver/dogleg.py              | 5 +++--
 optimistix/_solver/levenberg_marquardt.py | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index 090d496..ed672f2 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -14,6 +14,7 @@ from .._misc import (
     max_norm,
     sum_squares,
     tree_dot,
+    tree_dtype,
     tree_full_like,
     tree_where,
     two_norm,
@@ -61,8 +62,8 @@ class DoglegDescent(
         return _DoglegDescentState(
             newton=y,
             cauchy=y,
-            newton_norm=jnp.array(0.0),
-            cauchy_norm=jnp.array(0.0),
+            newton_norm=jnp.array(0.0, tree_dtype(y)),
+            cauchy_norm=jnp.array(0.0, tree_dtype(y)),
             result=RESULTS.successful,
         )
 
diff --git a/optimistix/_solver/levenberg_marquardt.py b/optimistix/_solver/levenberg_marquardt.py
index d97498e..d36173c 100644
--- a/optimistix/_solver/levenberg_marquardt.py
+++ b/optimistix/_solver/levenberg_marquardt.py
@@ -11,7 +11,7 @@ from equinox.internal import ω
 from jaxtyping import Array, Float, PyTree, Scalar, ScalarLike
 
 from .._custom_types import Aux, Out, Y
-from .._misc import default_verbose, max_norm, tree_full_like, two_norm
+from .._misc import default_verbose, max_norm, tree_dtype, tree_full_like, two_norm
 from .._root_find import AbstractRootFinder, root_find
 from .._search import AbstractDescent, FunctionInfo
 from .._solution import RESULTS
@@ -27,7 +27,9 @@ class _Damped(eqx.Module):
     def __call__(self, y: PyTree[Array]):
         residual = self.operator.mv(y)
         with jax.numpy_dtype_promotion("standard"):
-            damped = jtu.tree_map(lambda yi: jnp.sqrt(self.damping) * yi, y)
+            damped = jtu.tree_map(
+                lambda yi: (jnp.sqrt(self.damping) * yi).astype(yi.dtype), y
+            )
         return residual, damped
 
 
@@ -182,7 +184,7 @@ class IndirectDampedNewtonDescent(
         return _IndirectDampedNewtonDescentState(
             f_info=tree_full_like(f_info_struct, 0, allow_static=True),
             newton=y,
-            newton_norm=jnp.array(0.0),
+            newton_norm=jnp.array(0.0, tree_dtype(y)),
             result=RESULTS.successful,
         )
 
-- 
2.43.0


From 1a0b50057f93bf92d13b5e8474cf0060da84a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 08/13] fix: store Nelder-Mead function values in the dtype of
 the objective

With 64-bit mode enabled, minimising a float32 objective failed with a
dtype mismatch.
---
 optimistix/_solver/nelder_mead.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/nelder_mead.py b/optimistix/_solver/nelder_mead.py
index ae03865..7bc6c7d 100644
--- a/optimistix/_solver/nelder_mead.py
+++ b/optimistix/_solver/nelder_mead.py
@@ -186,16 +186,16 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             simplex=simplex,
             f_simplex=f_simplex,
             best=(
-                jnp.array(0.0),
+                jnp.array(0.0, dtype=f_struct.dtype),
                 jtu.tree_map(lambda x: x[0], simplex),
                 jnp.array(0, dtype=jnp.int32),
             ),
             worst=(
-                jnp.array(0.0),
+                jnp.array(0.0, dtype=f_struct.dtype),
                 jtu.tree_map(lambda x: x[0], simplex),
                 jnp.array(0, dtype=jnp.int32),
             ),
-            second_worst_val=jnp.array(0.0),
+            second_worst_val=jnp.array(0.0, dtype=f_struct.dtype),
             stats=stats,
             result=RESULTS.successful,
             first_pass=jnp.array(True),
@@ -227,7 +227,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
 
         def init_step(state):
             simplex = state.simplex
-            f_new_vertex = jnp.array(jnp.inf)
+            f_new_vertex = jnp.array(jnp.inf, dtype=state.f_simplex.dtype)
             return (
                 state,
                 simplex,
@@ -321,7 +321,7 @@ class NelderMead(AbstractMinimiser[Y, Aux, _NelderMeadState[Y, Aux]]):
             #
             (new_vertex, (f_new_vertex, aux), stats), _ = lax.scan(
                 eval_new_vertices,
-                (reflection, (jnp.array(0.0), state.aux), state.stats),
+                (reflection, (jnp.zeros_like(f_best), state.aux), state.stats),
                 jnp.arange(2),
             )
             return (state, state.simplex, new_vertex, f_new_vertex, stats, aux)
-- 
2.43.0


From 5b578332efa79fdb5fe471c8660f13309c25e9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:07 +0000
Subject: [PATCH 09/13] fix: match scalar state dtypes in FixedPointIteration
 and BestSoFar solvers

Both initialised a scalar with the default floating dtype. With 64-bit
mode enabled, float32 problems failed with a dtype mismatch.
---
 optimistix/_solver/best_so_far.py | 4 ++--
 optimistix/_solver/fixed_point.py | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/optimistix/_solver/best_so_far.py b/optimistix/_solver/best_so_far.py
index c2cb405..72318c5 100644
--- a/optimistix/_solver/best_so_far.py
+++ b/optimistix/_solver/best_so_far.py
@@ -13,7 +13,7 @@ from .._fixed_point import AbstractFixedPointSolver
 from .._iterate import AbstractIterativeSolver
 from .._least_squares import AbstractLeastSquaresSolver
 from .._minimise import AbstractMinimiser
-from .._misc import sum_squares, tree_full_like, tree_where
+from .._misc import sum_squares, tree_dtype, tree_full_like, tree_where
 from .._root_find import AbstractRootFinder
 from .._solution import RESULTS
 
@@ -59,7 +59,7 @@ class _AbstractBestSoFarSolver(AbstractIterativeSolver, Generic[Y, Out, Aux]):
         tags: frozenset[object],
     ) -> _BestSoFarState:
         aux = tree_full_like(aux_struct, 0)
-        loss = jnp.array(jnp.inf)
+        loss = jnp.array(jnp.inf, jnp.finfo(tree_dtype(f_struct)).dtype)
         auxmented_fn = eqx.Partial(_auxmented, fn)
         state = self.solver.init(
             auxmented_fn, y, args, options, f_struct, (f_struct, aux_struct), tags
diff --git a/optimistix/_solver/fixed_point.py b/optimistix/_solver/fixed_point.py
index d9bad8b..b2af984 100644
--- a/optimistix/_solver/fixed_point.py
+++ b/optimistix/_solver/fixed_point.py
@@ -10,7 +10,7 @@ from jaxtyping import Array, Bool, PyTree, Scalar
 
 from .._custom_types import Aux, Fn, Y
 from .._fixed_point import AbstractFixedPointSolver
-from .._misc import max_norm
+from .._misc import max_norm, tree_dtype
 from .._solution import RESULTS
 
 
@@ -46,8 +46,9 @@ class FixedPointIteration(AbstractFixedPointSolver[Y, Aux, _FixedPointState]):
         aux_struct: PyTree[jax.ShapeDtypeStruct],
         tags: frozenset[object],
     ) -> _FixedPointState:
-        del fn, y, args, options, f_struct, aux_struct
-        return _FixedPointState(jnp.array(jnp.inf))
+        del fn, args, options, f_struct, aux_struct
+        dtype = jnp.finfo(tree_dtype(y)).dtype
+        return _FixedPointState(jnp.array(jnp.inf, dtype))
 
     def step(
         self,
-- 
2.43.0


From 9178c4a11910d6934523eca851ded18434387f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:33 +0000
Subject: [PATCH 10/13] fix: report the last accepted iterate together with its
 own loss

Verbose output paired the loss of the previously accepted iterate with the
newly accepted point. Remember the iterate before the accept/reject step
and report that one.
---
 optimistix/_solver/gauss_newton.py | 3 ++-
 optimistix/_solver/quasi_newton.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/gauss_newton.py b/optimistix/_solver/gauss_newton.py
index 8dcd7f3..ae1d5df 100644
--- a/optimistix/_solver/gauss_newton.py
+++ b/optimistix/_solver/gauss_newton.py
@@ -291,6 +291,7 @@ class AbstractGaussNewton(AbstractLeastSquaresSolver[Y, Out, Aux, _GaussNewtonSt
         def rejected(descent_state):
             return y, state.f_info, state.aux, descent_state, jnp.array(False)
 
+        y_last_accepted = y
         y, f_info, aux, descent_state, terminate = filter_cond(
             accept, accepted, rejected, state.descent_state
         )
@@ -308,7 +309,7 @@ class AbstractGaussNewton(AbstractLeastSquaresSolver[Y, Out, Aux, _GaussNewtonSt
             loss_last_accepted_step=("Loss on the last accepted step", loss),
             step_size=("Step size", step_size),
             y=("y", state.y_eval),
-            y_last_accepted_step=("y on the last accepted step", y),
+            y_last_accepted_step=("y on the last accepted step", y_last_accepted),
         )
 
         y_descent, descent_result = self.descent.step(step_size, descent_state)
diff --git a/optimistix/_solver/quasi_newton.py b/optimistix/_solver/quasi_newton.py
index 94f3881..a399bee 100644
--- a/optimistix/_solver/quasi_newton.py
+++ b/optimistix/_solver/quasi_newton.py
@@ -266,6 +266,7 @@ class AbstractQuasiNewton(
                 state.hessian_update_state,
             )
 
+        y_last_accepted = y
         y, f_info, aux, descent_state, terminate, hessian_update_state = filter_cond(
             accept, accepted, rejected, state.descent_state
         )
@@ -275,7 +276,7 @@ class AbstractQuasiNewton(
             loss_last_accepted_step=("Loss on the last accepted step", state.f_info.f),
             step_size=("Step size", step_size),
             y=("y", state.y_eval),
-            y_last_accepted_step=("y on the last accepted step", y),
+            y_last_accepted_step=("y on the last accepted step", y_last_accepted),
         )
 
         y_descent, descent_result = self.descent.step(step_size, descent_state)
-- 
2.43.0


From 9eda9d119b5f74a8cedb877227e48ecdf6db3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:26 +0000
Subject: [PATCH 11/13] fix: damp in the precision of the problem

With 64-bit mode enabled, a damped Newton step on a float32 Hessian mixed in a
float64 damping and failed while tracing. For tiny step sizes the damping of a
float32 least-squares problem overflowed.
---
 optimistix/_solver/levenberg_marquardt.py | 26 ++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/optimistix/_solver/levenberg_marquardt.py b/optimistix/_solver/levenberg_marquardt.py
index d36173c..f22bdd2 100644
--- a/optimistix/_solver/levenberg_marquardt.py
+++ b/optimistix/_solver/levenberg_marquardt.py
@@ -54,26 +54,32 @@ def damped_newton_step(
     least-squares problem is the original linear problem we wanted to solve.
     """
 
+    if isinstance(f_info, FunctionInfo.EvalGradHessian):
+        y_structure = f_info.hessian.in_structure()
+    elif isinstance(f_info, FunctionInfo.ResidualJac):
+        y_structure = f_info.jac.in_structure()
+    else:
+        raise ValueError(
+            "Damped newton descent cannot be used with a solver that does not "
+            "provide (approximate) Hessian information."
+        )
+    # Damp in the (real) precision of the problem, which may be lower than that of the
+    # step size.
+    with jax.numpy_dtype_promotion("standard"):
+        dtype = jnp.finfo(tree_dtype(y_structure)).dtype
+    step_size = step_size.astype(dtype)
     pred = step_size > jnp.finfo(step_size.dtype).eps
     safe_step_size = jnp.where(pred, step_size, 1)
     lm_param = jnp.where(pred, 1 / safe_step_size, jnp.finfo(step_size.dtype).max)
     lm_param = cast(Array, lm_param)
     if isinstance(f_info, FunctionInfo.EvalGradHessian):
-        operator = f_info.hessian + lm_param * lx.IdentityLinearOperator(
-            f_info.hessian.in_structure()
-        )
+        operator = f_info.hessian + lm_param * lx.IdentityLinearOperator(y_structure)
         vector = f_info.grad
         if lx.is_positive_semidefinite(f_info.hessian):
             operator = lx.TaggedLinearOperator(operator, lx.positive_semidefinite_tag)
-    elif isinstance(f_info, FunctionInfo.ResidualJac):
-        y_structure = f_info.jac.in_structure()
+    else:
         operator = lx.FunctionLinearOperator(_Damped(f_info.jac, lm_param), y_structure)
         vector = (f_info.residual, tree_full_like(y_structure, 0))
-    else:
-        raise ValueError(
-            "Damped newton descent cannot be used with a solver that does not "
-            "provide (approximate) Hessian information."
-        )
     linear_sol = lx.linear_solve(operator, vector, linear_solver, throw=False)
     return linear_sol.value, RESULTS.promote(linear_sol.result)
 
-- 
2.43.0


From 0bb5524f1cd9af6215997f1994cd822259200bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:26 +0000
Subject: [PATCH 12/13] fix: interpolate dogleg steps in the precision of the
 problem

With 64-bit mode enabled and a trust-region norm other than the two-norm, the
inner root-find ran in float64 and failed on a float32 problem while tracing.
---
 optimistix/_solver/dogleg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index ed672f2..d936ffe 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -171,13 +171,17 @@ class DoglegDescent(
                 t_interp = jnp.where(b >= 0, quadratic_1, quadratic_2)
                 result = RESULTS.successful
             else:
-                root_find_options = {"lower": jnp.array(1.0), "upper": jnp.array(2.0)}
+                dtype = state.newton_norm.dtype
+                root_find_options = {
+                    "lower": jnp.array(1.0, dtype),
+                    "upper": jnp.array(2.0, dtype),
+                }
                 root_sol = root_find(
                     lambda t, _: (
                         self.trust_region_norm(interpolate(t)) - scaled_step_size
                     ),
                     self.root_finder,
-                    y0=jnp.array(1.5),
+                    y0=jnp.array(1.5, dtype),
                     options=root_find_options,
                     throw=False,
                 )
-- 
2.43.0


From adec673fe3e4815ca8ec2d9929032b2f37b82a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:15 +0000
Subject: [PATCH 13/13] fix: use the accurate form of the quadratic formula in
 dogleg steps

---
 optimistix/_solver/dogleg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optimistix/_solver/dogleg.py b/optimistix/_solver/dogleg.py
index d936ffe..bfb4e97 100644
--- a/optimistix/_solver/dogleg.py
+++ b/optimistix/_solver/dogleg.py
@@ -168,7 +168,7 @@ class DoglegDescent(
                 # use slightly different formulas when `b >=` and `b < 0`.
                 # See https://github.com/fortran-lang/stdlib/issues/674 for a number of
                 # references.
-                t_interp = jnp.where(b >= 0, quadratic_1, quadratic_2)
+                t_interp = jnp.where(b >= 0, quadratic_2, quadratic_1)
                 result = RESULTS.successful
             else:
                 dtype = state.newton_norm.dtype
-- 
2.43.0

