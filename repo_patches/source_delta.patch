From 04225712a70065f4846ce9522d7f756f676aab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 01/23] fix: marginal covariances of graphs with more than a
 few variables

CHOLMOD picks a fill-reducing permutation by default. The Cholesky factor
of the permuted system was indexed as if it were in storage order, so
covariances were reported for the wrong variables.

Factorize in the natural order instead.
---
 jaxfg/experimental/_sparse_covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index cd895b4..c854552 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -38,8 +38,10 @@ class SparseCovariance:
             .T.as_scipy_coo_matrix()
             .tocsc(copy=False)
         )
+        # The rows and columns of L need to line up with the local storage layout, so we
+        # can't let CHOLMOD apply a fill-reducing permutation.
         sqrt_information_matrix: scipy.sparse.csc_matrix = (
-            sksparse.cholmod.cholesky_AAt(A=A).L()
+            sksparse.cholmod.cholesky_AAt(A=A, ordering_method="natural").L()
         )
         return SparseCovariance(
             L=sqrt_information_matrix,
-- 
2.43.0


From fc123502a7b36eaa8e66a8e678b6379a1741a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 02/23] fix: storage layout mismatches in the fixed-iteration
 solver

The fixed-iteration Gauss-Newton solver overrides solve() but did not
convert the initial assignments to the layout of the graph. Updates were
applied to the wrong variables when the two were ordered differently.
---
 .../solvers/_fixed_iteration_gauss_newton_solver.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
index 88903e1..5634c7a 100644
--- a/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
+++ b/jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py
@@ -97,10 +97,10 @@ class FixedIterationGaussNewtonSolver(NonlinearSolverBase[NonlinearSolverState])
     ) -> VariableAssignments:
         """Run MAP inference on a factor graph."""
 
-        # Initialize
-        assignments = initial_assignments
-        cost, residual_vector = graph.compute_cost(assignments)
-        state = self._initialize_state(graph, initial_assignments)
+        # Initialize. Note that the storage layout of the initial assignments may not
+        # match what the graph expects.
+        assignments = initial_assignments.update_storage_layout(graph.storage_layout)
+        state = self._initialize_state(graph, assignments)
 
         # Optimization
         if self.unroll:
@@ -119,4 +119,7 @@ class FixedIterationGaussNewtonSolver(NonlinearSolverBase[NonlinearSolverState])
             cost=state.cost,
         )
 
-        return state.assignments
+        # Return, but with the storage layout reverted.
+        return state.assignments.update_storage_layout(
+            initial_assignments.storage_layout
+        )
-- 
2.43.0


From 4a77853a390283677be772076265616c9f33487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 03/23] fix: keep the old residual vector when a trust region
 step is rejected

Levenberg-Marquardt and dogleg restored the assignments and cost of a
rejected step, but kept its residual vector. The next gradient and step
quality were then computed from the wrong residuals, and steps that
increase the cost could be accepted.
---
 jaxfg/solvers/_dogleg_solver.py              | 4 +++-
 jaxfg/solvers/_levenberg_marquardt_solver.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 232e1f0..9b4b468 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -183,6 +183,8 @@ class DoglegSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),
             done=done,
         )
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 0ae2be7..393b58e 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -147,6 +147,8 @@ class LevenbergMarquardtSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),
             done=done,
         )
-- 
2.43.0


From 639c4d9257ea4fffab22da8c5ea26e302cff5fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 04/23] fix: use the infinity norm in the gradient termination
 criterion

The absolute value was missing, so solvers stopped as soon as every
component of the update direction was positive.
---
 jaxfg/solvers/_mixins.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jaxfg/solvers/_mixins.py b/jaxfg/solvers/_mixins.py
index af3a70e..cea6b37 100644
--- a/jaxfg/solvers/_mixins.py
+++ b/jaxfg/solvers/_mixins.py
@@ -76,13 +76,15 @@ class _TerminationCriteriaMixin:
         converged_gradient = jnp.where(
             state_prev.iterations >= self.gradient_tolerance_start_step,
             jnp.max(
-                state_prev.assignments.storage
-                - state_prev.assignments.manifold_retract(
-                    VariableAssignments(
-                        storage=negative_gradient,
-                        storage_layout=local_delta_assignments.storage_layout,
-                    ),
-                ).storage
+                jnp.abs(
+                    state_prev.assignments.storage
+                    - state_prev.assignments.manifold_retract(
+                        VariableAssignments(
+                            storage=negative_gradient,
+                            storage_layout=local_delta_assignments.storage_layout,
+                        ),
+                    ).storage
+                )
             )
             < self.gradient_tolerance,
             False,
-- 
2.43.0


From 427bc6c065477489814d5dbc1dd840f14dc3b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 05/23] fix: sum repeated coordinates when densifying a sparse
 matrix

Products and scipy conversions sum entries that share a coordinate, but
as_dense() kept only one of them. Repeated coordinates show up in the
Jacobian of any factor that uses the same variable twice.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index e552a04..cbfd6a2 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -53,7 +53,7 @@ class SparseCooMatrix:
         return (
             jnp.zeros(self.shape)
             .at[self.coords.rows, self.coords.cols]
-            .set(self.values)
+            .add(self.values)
         )
 
     @staticmethod
-- 
2.43.0


From fbfd6ce9852df8001dbb45c11908429704d89c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 06/23] fix: sparse matrix products with integer vectors

The output took the dtype of the vector, so products of a real-valued
matrix with an integer vector were truncated.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index cbfd6a2..21fb316 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -42,7 +42,7 @@ class SparseCooMatrix:
             self.shape[1],
         ), "Inner product only supported for 1D vectors!"
         return (
-            jnp.zeros(self.shape[0], dtype=other.dtype)
+            jnp.zeros(self.shape[0], dtype=jnp.result_type(self.values, other))
             .at[self.coords.rows]
             .add(self.values * other[self.coords.cols])
         )
-- 
2.43.0


From 59ab6df41c9f0d041896e2026a69f723a579f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 07/23] fix: allow include_constants to be passed to
 compute_joint_nll()

The flag is branched on, but was traced by jit. Passing it explicitly
raised a tracer error.
---
 jaxfg/core/_stacked_factor_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/core/_stacked_factor_graph.py b/jaxfg/core/_stacked_factor_graph.py
index f7ed223..bee2a37 100644
--- a/jaxfg/core/_stacked_factor_graph.py
+++ b/jaxfg/core/_stacked_factor_graph.py
@@ -175,7 +175,7 @@ class StackedFactorGraph:
     def compute_joint_nll(
         self,
         assignments: VariableAssignments,
-        include_constants: bool = False,
+        include_constants: jdc.Static[bool] = False,
     ) -> jnp.ndarray:
         """Compute the joint negative log-likelihood density associated with a set of
         variable assignments. Assumes Gaussian noise models.
-- 
2.43.0


From 4d3906c619ea25d5ab1f185078967e4849e02224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 08/23] fix: overflow in the log-determinant terms of the joint
 NLL

The determinant itself leaves the float32 range for noise models with a
few dozen dimensions, which made the joint NLL infinite. Sum logarithms
instead.
---
 jaxfg/core/_stacked_factor_graph.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/jaxfg/core/_stacked_factor_graph.py b/jaxfg/core/_stacked_factor_graph.py
index bee2a37..c2462c1 100644
--- a/jaxfg/core/_stacked_factor_graph.py
+++ b/jaxfg/core/_stacked_factor_graph.py
@@ -198,29 +198,26 @@ class StackedFactorGraph:
         for stacked_factor in self.factor_stacks:
             noise_model = stacked_factor.factor.noise_model
             if isinstance(noise_model, noises.Gaussian):
-                cov_determinants = -2.0 * jnp.log(
-                    jnp.abs(
-                        jnp.linalg.det(
-                            cast(noises.Gaussian, noise_model).sqrt_precision_matrix
-                        )
-                    )
+                _, log_determinants = jnp.linalg.slogdet(
+                    cast(noises.Gaussian, noise_model).sqrt_precision_matrix
                 )
+                cov_log_determinants = -2.0 * log_determinants
             elif isinstance(noise_model, noises.DiagonalGaussian):
-                cov_determinants = -2.0 * jnp.log(
-                    jnp.abs(
-                        jnp.prod(
+                cov_log_determinants = -2.0 * jnp.sum(
+                    jnp.log(
+                        jnp.abs(
                             cast(
                                 noises.DiagonalGaussian, noise_model
-                            ).sqrt_precision_diagonal,
-                            axis=-1,
+                            ).sqrt_precision_diagonal
                         )
-                    )
+                    ),
+                    axis=-1,
                 )
             else:
                 assert False, f"Joint NLL not supported  for {type(noise_model)}"
-            assert cov_determinants.shape == (stacked_factor.num_factors,)
+            assert cov_log_determinants.shape == (stacked_factor.num_factors,)
 
-            joint_nll = joint_nll + jnp.sum(cov_determinants)
+            joint_nll = joint_nll + jnp.sum(cov_log_determinants)
 
         return joint_nll
 
-- 
2.43.0


From 0486ece20541ad8d70f55dd4b82bd25aadc85532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 09/23] fix: weight Huber Jacobians and residuals consistently

Graphs pass residuals that are already whitened to whiten_jacobian(), but
the Huber wrapper derived its weight as if they were not. Outliers got
different weights in the residual and the Jacobian, and solvers converged
to a point that does not minimize the Huber loss.
---
 jaxfg/noises/_huber.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index c793cb0..e0ab045 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -41,11 +41,13 @@ class HuberWrapper(NoiseModelBase):
         jacobian: hints.Array,
         residual_vector: hints.Array,
     ) -> hints.Array:
-        jacobian = self.wrapped.whiten_jacobian(jacobian, residual_vector)
-
+        # The input residual is already whitened: outliers have had their norm mapped
+        # from `norm` to `sqrt(delta * norm)`. We recover the scale that was applied, so
+        # that residuals and Jacobians are weighted consistently.
         residual_norm = jnp.linalg.norm(residual_vector)
-        return jnp.where(
+        scale = jnp.where(
             residual_norm < self.delta,
-            jacobian,
-            jacobian * jnp.sqrt(self.delta / residual_norm),
+            1.0,
+            self.delta / residual_norm,
         )
+        return scale * self.wrapped.whiten_jacobian(jacobian, residual_vector / scale)
-- 
2.43.0


From daee10ed83c589ec31303249a535e3358f973f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 10/23] fix: reuse CHOLMOD analyses only for matching sparsity
 patterns

Analyses were cached by the identity of the solver. Solving two graphs
that share variables but are connected differently could reuse an analysis
for the wrong sparsity pattern, which silently produced garbage steps.
Cache by sparsity pattern instead.

The cached factor was also updated in place, so solves that run
concurrently could overwrite each other's factorization.
---
 jaxfg/sparse/_linear_solve.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index fd7f68d..f992011 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -42,8 +42,6 @@ class CholmodSolver(LinearSubproblemSolverBase):
     reasons, but also less stable than `ConjugateGradientSolver`.
 
     Runs via an XLA host callback, and has some usage caveats:
-    - Caching is a little bit sketchy. Assumes that a given solver is not reused for
-      systems with different sparsity patterns.
     - Does not support function transforms (`vmap`, `pmap`, etc), due to current
       limitations of `hcb.call()`.
     - Does not support autodiff. A custom JVP or VJP definition should be easy to
@@ -75,17 +73,22 @@ class CholmodSolver(LinearSubproblemSolverBase):
         A_T_scipy = A_T.as_scipy_coo_matrix().tocsc(copy=False)
 
         # Cache sparsity pattern analysis
-        self_hash = object.__hash__(self)
-        if self_hash not in _cholmod_analyze_cache:
-            _cholmod_analyze_cache[self_hash] = sksparse.cholmod.analyze_AAt(A_T_scipy)
+        pattern = (
+            A_T_scipy.shape,
+            A_T_scipy.indptr.tobytes(),
+            A_T_scipy.indices.tobytes(),
+        )
+        if pattern not in _cholmod_analyze_cache:
+            _cholmod_analyze_cache[pattern] = sksparse.cholmod.analyze_AAt(A_T_scipy)
 
-        # Factorize and solve
-        _cholmod_analyze_cache[self_hash].cholesky_AAt_inplace(
+        # Factorize and solve. The cached analysis is shared between threads, so we
+        # leave it untouched and factorize into a new object.
+        factor = _cholmod_analyze_cache[pattern].cholesky_AAt(
             A_T_scipy,
             beta=args.lambd
             + 1e-5,  # Some simple linear problems blow up without this 1e-5 term
         )
-        return _cholmod_analyze_cache[self_hash].solve_A(args.ATb)
+        return factor.solve_A(args.ATb)
 
 
 class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
-- 
2.43.0


From fc871c769aaed0462fa2193a54001c8cbdd7b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:04 +0000
Subject: [PATCH 11/23] fix: NaNs from the Jacobi preconditioner for all-zero
 columns

A single parameter that does not affect the residuals made the diagonal
of the normal equations zero, and turned the whole conjugate gradient
solution into NaNs.
---
 jaxfg/sparse/_linear_solve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_linear_solve.py b/jaxfg/sparse/_linear_solve.py
index f992011..8fc54cf 100644
--- a/jaxfg/sparse/_linear_solve.py
+++ b/jaxfg/sparse/_linear_solve.py
@@ -123,7 +123,8 @@ class _ConjugateGradientSolver(LinearSubproblemSolverBase, abc.ABC):
             # return ATAx + lambd * x
 
         def jacobi_preconditioner(x):
-            return x / ATA_diagonals
+            # Diagonals are zero for parameters that don't affect the residuals.
+            return x / jnp.where(ATA_diagonals == 0.0, 1.0, ATA_diagonals)
 
         # Solve with conjugate gradient
         solution_values, _unused_info = jax.scipy.sparse.linalg.cg(
-- 
2.43.0


From e06a69b7e84469e701941f274e1c4a709165c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:30 +0000
Subject: [PATCH 12/23] fix: use exact Jacobians for prior and between factors

The analytical Jacobians ignored the derivative of the group logarithm, so
they were only correct at zero residual. For SE(2) and SE(3), solvers
converged to points that do not minimize the cost whenever measurements
disagree, and marginal covariances were computed from the wrong
linearization. Autodiff gives the exact derivative.
---
 jaxfg/geometry/_factors.py | 28 ++--------------------------
 1 file changed, 2 insertions(+), 26 deletions(-)

diff --git a/jaxfg/geometry/_factors.py b/jaxfg/geometry/_factors.py
index 2055146..250695b 100644
--- a/jaxfg/geometry/_factors.py
+++ b/jaxfg/geometry/_factors.py
@@ -50,14 +50,8 @@ class PriorFactor(FactorBase[PriorValueTuple]):
         # Equivalent to: return (variable_value.inverse() @ self.mu).log()
         return jaxlie.manifold.rminus(T, self.mu)
 
-    # Optional: we specify an analytical Jacobian.
-    @overrides
-    def compute_residual_jacobians(
-        self, variable_values: PriorValueTuple
-    ) -> Tuple[jnp.ndarray]:
-        T: jaxlie.MatrixLieGroup
-        (T,) = variable_values
-        return (-jnp.eye(type(T).tangent_dim),)
+    # Optional: we could also override `compute_residual_jacobians` with an analytical
+    # Jacobian. Autodiff will handle Jacobians if we don't.
 
 
 # Our BetweenFactor implementation is pretty similar to PriorFactor, but requires two
@@ -104,21 +98,3 @@ class BetweenFactor(FactorBase[BetweenValueTuple]):
         T_world_b = variable_values.T_world_b
 
         return jaxlie.manifold.rminus(T_world_a.inverse() @ T_world_b, self.T_a_b)
-
-    @overrides
-    def compute_residual_jacobians(
-        self, variable_values: BetweenValueTuple
-    ) -> Tuple[jnp.ndarray, jnp.ndarray]:
-        # Implementing this is optional!
-        # Autodiff will handle Jacobians if we don't specify analytical ones.
-
-        T_world_a = variable_values.T_world_a
-        T_world_b = variable_values.T_world_b
-
-        assert type(T_world_a) == type(T_world_b)
-        group_cls = type(T_world_a)
-
-        return (
-            (T_world_a.inverse() @ T_world_b).inverse().adjoint(),
-            -jnp.eye(group_cls.tangent_dim),
-        )
-- 
2.43.0


From 13cfd621a11f5a2a39da9d7a321aaf0d1dc6b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:30 +0000
Subject: [PATCH 13/23] fix: match deltas to variables in manifold_retract()

Deltas were paired with values by position within each variable type.
When the local deltas were laid out in a different variable order than
the assignments, variables were updated with each other's deltas.
---
 jaxfg/core/_variable_assignments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 892c7ef..78384b6 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -186,6 +186,12 @@ class VariableAssignments:
         assert not self.storage_layout.local_flag
         assert local_delta_assignments.storage_layout.local_flag
 
+        # Resolve storage layout mismatches. Deltas may be ordered differently from the
+        # variables they correspond to.
+        local_delta_assignments = local_delta_assignments.update_storage_layout(
+            StorageLayout.make(self.get_variables(), local=True)
+        )
+
         # On-manifold retractions, one variable type at a time!
         new_storage = jnp.zeros_like(self.storage)
         variable_type: Type[VariableBase]
-- 
2.43.0


From 7a01634b81f3322f8191e0ae316b1dbea5fc3b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:46 +0000
Subject: [PATCH 14/23] fix: skip blank lines when parsing g2o files

A blank line, for example at the end of a file, raised an IndexError.
---
 scripts/_g2o_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/_g2o_utils.py b/scripts/_g2o_utils.py
index e7d2e97..c364446 100644
--- a/scripts/_g2o_utils.py
+++ b/scripts/_g2o_utils.py
@@ -20,7 +20,7 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
     """Parse a G2O file. Creates a list of factors and dictionary of initial poses."""
 
     with open(path) as file:
-        lines = [line.strip() for line in file.readlines()]
+        lines = [line.strip() for line in file.readlines() if line.strip() != ""]
 
     pose_variables: List[jaxfg.geometry.LieVariableBase] = []
     initial_poses: Dict[jaxfg.geometry.LieVariableBase, jaxlie.MatrixLieGroup] = {}
-- 
2.43.0


From 0d4a3a7a74532766195202db2ec106e33f1e2f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:46 +0000
Subject: [PATCH 15/23] fix: apply the pose count limit consistently when
 parsing g2o files

One pose too many was kept for SE(2) files, and the limit was ignored
for SE(3) files.
---
 scripts/_g2o_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/_g2o_utils.py b/scripts/_g2o_utils.py
index c364446..f4d3439 100644
--- a/scripts/_g2o_utils.py
+++ b/scripts/_g2o_utils.py
@@ -34,7 +34,7 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
         between: jaxlie.MatrixLieGroup
 
         if parts[0] == "VERTEX_SE2":
-            if len(pose_variables) > pose_count_limit:
+            if len(pose_variables) >= pose_count_limit:
                 continue
 
             # Create SE(2) variable
@@ -51,7 +51,7 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
             before_index = int(parts[1])
             after_index = int(parts[2])
 
-            if before_index > pose_count_limit or after_index > pose_count_limit:
+            if before_index >= pose_count_limit or after_index >= pose_count_limit:
                 continue
 
             between = jaxlie.SE2.from_xy_theta(*(float(p) for p in parts[3:6]))
@@ -75,6 +75,9 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
             )
 
         elif parts[0] == "VERTEX_SE3:QUAT":
+            if len(pose_variables) >= pose_count_limit:
+                continue
+
             # Create SE(3) variable
             _, index, x, y, z, qx, qy, qz, qw = parts
             index = int(index)
@@ -90,6 +93,9 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
             before_index = int(parts[1])
             after_index = int(parts[2])
 
+            if before_index >= pose_count_limit or after_index >= pose_count_limit:
+                continue
+
             numerical_parts = list(map(float, parts[3:]))
             assert len(numerical_parts) == 7 + 21
 
-- 
2.43.0


From 14c5ad2449b4b2a0af4c11dd361aad5a88d0d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:08 +0000
Subject: [PATCH 16/23] fix: storage layouts for variable lists with repeats

A variable that was listed twice was allocated twice, which left a block
of storage that belongs to no variable. Such assignments could not be used
with a graph.
---
 jaxfg/core/_storage_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/core/_storage_layout.py b/jaxfg/core/_storage_layout.py
index 9adcc5f..d1950c8 100644
--- a/jaxfg/core/_storage_layout.py
+++ b/jaxfg/core/_storage_layout.py
@@ -51,7 +51,7 @@ class StorageLayout:
         variables_from_type: DefaultDict[Type[VariableBase], List[VariableBase]] = (
             DefaultDict(list)
         )
-        for variable in variables:
+        for variable in dict.fromkeys(variables):  # Ordered, without repeats
             variables_from_type[type(variable)].append(variable)
 
         # Assign block of storage vector for each variable
-- 
2.43.0


From cd8b686e77a8c384a9b7ed10a4a7971efa1c6695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:08 +0000
Subject: [PATCH 17/23] fix: NaN gradients of Huber losses at zero residual

Differentiating through the norm of a zero residual produced NaNs, even
though the norm is not used for inliers.
---
 jaxfg/noises/_huber.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index e0ab045..3b7321c 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -1,3 +1,5 @@
+from typing import Tuple
+
 import jax_dataclasses as jdc
 from jax import numpy as jnp
 from overrides import overrides
@@ -28,9 +30,9 @@ class HuberWrapper(NoiseModelBase):
     def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
         residual_vector = self.wrapped.whiten_residual_vector(residual_vector)
 
-        residual_norm = jnp.linalg.norm(residual_vector)
+        inlier, residual_norm = self._compute_residual_norm(residual_vector)
         return jnp.where(
-            residual_norm < self.delta,
+            inlier,
             residual_vector,
             residual_vector * jnp.sqrt(self.delta / residual_norm),
         )
@@ -44,10 +46,15 @@ class HuberWrapper(NoiseModelBase):
         # The input residual is already whitened: outliers have had their norm mapped
         # from `norm` to `sqrt(delta * norm)`. We recover the scale that was applied, so
         # that residuals and Jacobians are weighted consistently.
-        residual_norm = jnp.linalg.norm(residual_vector)
-        scale = jnp.where(
-            residual_norm < self.delta,
-            1.0,
-            self.delta / residual_norm,
-        )
+        inlier, residual_norm = self._compute_residual_norm(residual_vector)
+        scale = jnp.where(inlier, 1.0, self.delta / residual_norm)
         return scale * self.wrapped.whiten_jacobian(jacobian, residual_vector / scale)
+
+    def _compute_residual_norm(
+        self, residual_vector: hints.Array
+    ) -> Tuple[hints.Array, hints.Array]:
+        """Returns an inlier flag and a residual norm. The norm is only meaningful for
+        outliers: for inliers we replace it with a constant, because its gradient is
+        undefined for zero residuals."""
+        inlier = jnp.sum(residual_vector**2) < self.delta**2
+        return inlier, jnp.linalg.norm(jnp.where(inlier, 1.0, residual_vector))
-- 
2.43.0


From e129f885751d81f406609ba777effd539d44bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:08 +0000
Subject: [PATCH 18/23] fix: recursion errors when recovering covariances of
 large graphs

Covariance values were computed recursively, with a recursion depth that
grows with the number of variables. Marginals of chains with a few hundred
poses raised a RecursionError. Use an explicit stack instead.
---
 jaxfg/experimental/_sparse_covariance.py | 68 ++++++++++++++----------
 1 file changed, 40 insertions(+), 28 deletions(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index c854552..52580d7 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -91,33 +91,45 @@ class SparseCovariance:
         # Enforce symmetry
         if indices[0] > indices[1]:
             indices = indices[::-1]
-        row, col = indices
 
-        # Use cached value if available
-        if indices in self._value_cache:
-            return self._value_cache[indices]
-
-        # Compute covariance value from square-root information matrix
-        value: float
-
-        if row == col:
-            value = self.L_diag_inv[col] * (
-                self.L_diag_inv[col] - self._sum_over_col(col, col)
+        # Each value depends on values that are closer to the end of the matrix. The
+        # dependency chain can be as long as the matrix is wide, so we use a stack
+        # instead of recursive calls
+        stack: List[Tuple[int, int]] = [indices]
+        while len(stack) > 0:
+            row, col = stack[-1]
+
+            # Use cached value if available
+            if (row, col) in self._value_cache:
+                stack.pop()
+                continue
+
+            # Compute missing dependencies first
+            dependencies = self._get_dependencies(row, col)
+            missing = [k for k in dependencies if k not in self._value_cache]
+            if len(missing) > 0:
+                stack.extend(missing)
+                continue
+
+            # Compute covariance value from square-root information matrix
+            value: float = -sum(
+                val * self._value_cache[k] for k, val in dependencies.items()
             )
-        else:
-            value = -self.L_diag_inv[row] * self._sum_over_col(row, col)
-
-        self._value_cache[indices] = value
-        return value
-
-    def _sum_over_col(self, col: int, col_l: int) -> float:
-        column: scipy.sparse.csc_matrix = self.L.getcol(col)
-
-        total: float = 0.0
-        row: int
-        val: float
-        for row, val in zip(column.indices, column.data):
-            if col != row:  # Skip diagonal
-                total += val * self[row, col_l]
-
-        return total
+            if row == col:
+                value += self.L_diag_inv[row]
+            self._value_cache[(row, col)] = self.L_diag_inv[row] * value
+            stack.pop()
+
+        return self._value_cache[indices]
+
+    def _get_dependencies(self, row: int, col: int) -> Dict[Tuple[int, int], float]:
+        """Get the indices of the covariance values that are needed for computing the
+        value at `(row, col)`, and the entries of L that they are weighted by."""
+        start, end = self.L.indptr[row : row + 2]
+        return {
+            (min(i, col), max(i, col)): val
+            for i, val in zip(
+                self.L.indices[start:end].tolist(), self.L.data[start:end].tolist()
+            )
+            if i != row  # Skip diagonal
+        }
-- 
2.43.0


From 3406feae3d65f63190eaf6695fb4da623bcbc0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:12 +0000
Subject: [PATCH 19/23] fix: reject variable values of the wrong size

Setting a single-element value used to broadcast it over the whole
variable, and sizes that were wrong for each variable but right in total
were accepted when building assignments from a dictionary.
---
 jaxfg/core/_variable_assignments.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 78384b6..4e34ae0 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -67,17 +67,17 @@ class VariableAssignments:
         storage_layout = StorageLayout.make(variables, local=False)
 
         # Stack variable values in order
-        storage = jnp.concatenate(
-            [
-                jax.jit(variable.flatten)(
-                    assignments[variable]
-                    if assignments is not None and variable in assignments
-                    else variable.get_default_value()
-                )
-                for variable in storage_layout.get_variables()
-            ],
-            axis=0,
-        )
+        flattened_values = [
+            jax.jit(variable.flatten)(
+                assignments[variable]
+                if assignments is not None and variable in assignments
+                else variable.get_default_value()
+            )
+            for variable in storage_layout.get_variables()
+        ]
+        for variable, flat in zip(storage_layout.get_variables(), flattened_values):
+            assert flat.shape == (variable.get_parameter_dim(),)
+        storage = jnp.concatenate(flattened_values, axis=0)
         assert storage.shape == (storage_layout.dim,)
 
         return VariableAssignments(storage=storage, storage_layout=storage_layout)
@@ -168,11 +168,13 @@ class VariableAssignments:
         """Update a value corresponding to specific variable."""
 
         index = self.storage_layout.index_from_variable[variable]
+        flat = type(variable).flatten(value)
+        assert flat.shape == (type(variable).get_parameter_dim(),)
         with jdc.copy_and_mutate(self) as output:
             output.storage = (
                 jnp.asarray(output.storage)  # In case storage vector is an onp array
                 .at[index : index + type(variable).get_parameter_dim()]
-                .set(type(variable).flatten(value))
+                .set(flat)
             )
         return output
 
-- 
2.43.0


From 671cb941149e9b10671c82908a8e0e2a4434ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:12 +0000
Subject: [PATCH 20/23] fix: reject residuals that don't match the size of a
 Gaussian noise model

Residuals of size 1 were silently broadcasted.
---
 jaxfg/noises/_gaussians.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jaxfg/noises/_gaussians.py b/jaxfg/noises/_gaussians.py
index 55386a1..a7536cb 100644
--- a/jaxfg/noises/_gaussians.py
+++ b/jaxfg/noises/_gaussians.py
@@ -28,6 +28,8 @@ class Gaussian(NoiseModelBase):
 
     @overrides
     def whiten_residual_vector(self, residual_vector: hints.Array) -> hints.Array:
+        # Size 1 residuals would otherwise be broadcasted
+        assert residual_vector.shape == (self.get_residual_dim(),)
         return jnp.einsum("ij,j->i", self.sqrt_precision_matrix, residual_vector)
 
     @overrides
@@ -36,6 +38,8 @@ class Gaussian(NoiseModelBase):
         jacobian: hints.Array,
         residual_vector: hints.Array,  # Unused
     ) -> hints.Array:
+        assert len(jacobian.shape) == 2
+        assert jacobian.shape[0] == self.get_residual_dim()
         return jnp.einsum("ij,jk->ik", self.sqrt_precision_matrix, jacobian)
 
 
-- 
2.43.0


From bb38be7bba0469837087480e460c8864c3a4ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:37 +0000
Subject: [PATCH 21/23] fix: shrink the dogleg trust region after steps with
 NaN cost

The radius was left unchanged, so the same step was tried again until the
iteration limit.
---
 jaxfg/solvers/_dogleg_solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 9b4b468..614ee49 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -141,8 +141,7 @@ class DoglegSolver(
 
         # Update trust region
         radius = jnp.where(
-            step_quality < 0.25,
-            state_prev.radius / 2.0,
+            step_quality >= 0.25,
             jnp.where(
                 step_quality > 0.75,
                 jnp.max(
@@ -150,6 +149,8 @@ class DoglegSolver(
                 ),
                 state_prev.radius,
             ),
+            # Shrink for poor steps, including ones with a NaN cost
+            state_prev.radius / 2.0,
         )
 
         # Get output assignments
-- 
2.43.0


From e827ca1a184fd5a510ab9b826f74071047d5c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:32 +0000
Subject: [PATCH 22/23] fix: reject g2o edges with negative vertex indices

A negative index counted from the end of the vertex list, so a malformed edge was
silently attached to an unrelated pose.
---
 scripts/_g2o_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/_g2o_utils.py b/scripts/_g2o_utils.py
index f4d3439..10ca15d 100644
--- a/scripts/_g2o_utils.py
+++ b/scripts/_g2o_utils.py
@@ -50,6 +50,7 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
             # Create relative offset between pair of SE(2) variables
             before_index = int(parts[1])
             after_index = int(parts[2])
+            assert before_index >= 0 and after_index >= 0
 
             if before_index >= pose_count_limit or after_index >= pose_count_limit:
                 continue
@@ -92,6 +93,7 @@ def parse_g2o(path: pathlib.Path, pose_count_limit: int = 100000) -> G2OData:
             # Create relative offset between pair of SE(3) variables
             before_index = int(parts[1])
             after_index = int(parts[2])
+            assert before_index >= 0 and after_index >= 0
 
             if before_index >= pose_count_limit or after_index >= pose_count_limit:
                 continue
-- 
2.43.0


From 2b6d039de0d51f89b8842cbdf669a73005bd8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:52 +0000
Subject: [PATCH 23/23] fix: keep fractional updates of assignments built from
 integers

Assignments built only from integer values got an integer storage vector.
Later updates and retractions were silently rounded towards zero, and
solving raised an unrelated error. Storage is now always floating point.
---
 jaxfg/core/_variable_assignments.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 4e34ae0..f2b64ee 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -12,6 +12,12 @@ from ._variables import VariableBase
 VariableValueType = TypeVar("VariableValueType", bound=hints.VariableValue)
 
 
+def _as_floating(storage: hints.Array) -> jnp.ndarray:
+    """Convert integers to floating point, because updates would be rounded otherwise.
+    No-op for storage vectors that are already floating point."""
+    return jnp.asarray(storage, dtype=jnp.result_type(storage, 1.0))
+
+
 @jdc.pytree_dataclass
 class VariableAssignments:
     """Storage class that maps variables to values."""
@@ -43,7 +49,9 @@ class VariableAssignments:
         )
         assert storage.shape == (storage_layout.dim,)
 
-        return VariableAssignments(storage=storage, storage_layout=storage_layout)
+        return VariableAssignments(
+            storage=_as_floating(storage), storage_layout=storage_layout
+        )
 
     @staticmethod
     def make_from_dict(
@@ -80,7 +88,9 @@ class VariableAssignments:
         storage = jnp.concatenate(flattened_values, axis=0)
         assert storage.shape == (storage_layout.dim,)
 
-        return VariableAssignments(storage=storage, storage_layout=storage_layout)
+        return VariableAssignments(
+            storage=_as_floating(storage), storage_layout=storage_layout
+        )
 
     @jdc.jit
     def update_storage_layout(
@@ -172,7 +182,7 @@ class VariableAssignments:
         assert flat.shape == (type(variable).get_parameter_dim(),)
         with jdc.copy_and_mutate(self) as output:
             output.storage = (
-                jnp.asarray(output.storage)  # In case storage vector is an onp array
+                _as_floating(output.storage)  # In case storage vector is an onp array
                 .at[index : index + type(variable).get_parameter_dim()]
                 .set(flat)
             )
@@ -195,7 +205,7 @@ class VariableAssignments:
         )
 
         # On-manifold retractions, one variable type at a time!
-        new_storage = jnp.zeros_like(self.storage)
+        new_storage = jnp.zeros_like(_as_floating(self.storage))
         variable_type: Type[VariableBase]
         for variable_type in self.storage_layout.index_from_variable_type.keys():
             # Get locations
-- 
2.43.0

