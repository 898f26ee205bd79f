"""Writes properties.jsonl. Kept so that the file can be edited in a readable form."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))


CORE = "jaxfg/core/"
prop("C01", "Graph residual and cost are exactly those of its individual factors",
     "For any collection of factors and any assignments, the whitened residual vector of the graph consists of the whitened residuals of every factor evaluated on that factor's own variables, each exactly once, and the cost is the sum of their squares. This does not depend on how factors are batched together internally: differing factor classes, parameters, array shapes, static settings, noise models and variable types never leak into each other, and neither the order of factors nor the order in which assignments store their variables matters.",
     ["inputs", "programs"],
     "All finite factor collections over any mix of variable types, factor classes, residual dimensions, static fields and noise models; all assignments and storage orders of their variables.",
     "Existing tests evaluate a handful of homogeneous toy graphs with one or two factor types; the quantifier is over arbitrary heterogeneous mixtures, where grouping and index bookkeeping can go wrong.",
     [CORE + "_stacked_factor_graph.py", CORE + "_factor_stack.py", CORE + "_factor_base.py", CORE + "_storage_layout.py"],
     [("group key from tree structure and leaf shapes", "StackedFactorGraph.make"), ("stacking of factor parameters and value indices", "FactorStack.make"), ("layout reconciliation", "VariableAssignments.update_storage_layout")],
     ["StackedFactorGraph.compute_whitened_residual_vector", "StackedFactorGraph.compute_cost"])

prop("C02", "Graph Jacobian is the exact derivative of the whitened residual",
     "The Jacobian returned for a graph at given assignments equals the derivative of its whitened residual vector with respect to per-variable local perturbations at zero, where perturbing means applying each variable's own retraction. Its rows follow the residual vector's order and its columns follow the graph's local storage layout, with contributions adding up when a factor uses the same variable more than once. This holds for automatically differentiated factors on any manifold, for the built-in factors, and for factors that supply their own derivative.",
     ["inputs", "programs"],
     "All graphs mixing Euclidean, pytree-valued, Lie-group and custom-manifold variables (local dimension may differ from parameter dimension), all factor arities including repeated variables, all smooth evaluation points.",
     "Tests compare analytic and automatic derivatives of two factor types at a single point; column placement, chain rule through retraction and repeated variables are not quantified over.",
     [CORE + "_factor_base.py", CORE + "_factor_stack.py", CORE + "_stacked_factor_graph.py", "jaxfg/geometry/_lie_variables.py", "jaxfg/geometry/_factors.py"],
     [("chain rule of residual and retraction Jacobians", "FactorBase.compute_residual_jacobians"), ("row/column coordinates", "FactorStack.compute_jacobian_coords"), ("whitening of Jacobian blocks", "NoiseModelBase.whiten_jacobian")],
     ["StackedFactorGraph.compute_whitened_residual_jacobian"])

prop("C03", "Assignments behave as an immutable variable-to-value map",
     "An assignments object behaves like an immutable mapping from variables to values: whatever sequence of constructions from dictionaries, partial dictionaries or defaults, single-value updates and storage reorderings produced it, reading any variable individually, as a dictionary, or stacked by type returns the value most recently given to that variable in its original structure, or its type's default. Updates return new objects and never alter the original or any other variable. Reordering storage never changes which value belongs to which variable.",
     ["histories", "inputs"],
     "All sequences of public assignment operations over any set of variables of mixed types and nested value structures, in any order.",
     "Tests construct small assignments once and read back a few values; they do not explore operation histories or mixed-type orderings.",
     [CORE + "_variable_assignments.py", CORE + "_storage_layout.py", CORE + "_variables.py"],
     [("flatten/unflatten and storage index lookup", "VariableAssignments.get_value/set_value"), ("shuffle index computation", "VariableAssignments.update_storage_layout")],
     ["VariableAssignments.get_value", "VariableAssignments.get_stacked_value", "VariableAssignments.as_dict", "VariableAssignments.set_value"])

prop("C04", "Retraction moves each variable by its own delta and stays on manifold",
     "Retracting assignments by a set of local deltas moves every variable by its own type's retraction with the delta belonging to that same variable, regardless of the storage order of either object, and leaves the inputs unchanged. A zero delta leaves all values unchanged, Lie-group values move by right-multiplication with the group exponential of the delta and remain valid group elements, and plain vectors move by addition.",
     ["inputs"],
     "All assignments over mixed variable types, all finite deltas, and all storage orders of both.",
     "No existing test calls retraction with heterogeneous variables or with differently ordered deltas; solvers exercise it only on single-type graphs.",
     [CORE + "_variable_assignments.py", CORE + "_variables.py", "jaxfg/geometry/_lie_variables.py"],
     [("per-type batched retraction", "VariableAssignments.manifold_retract"), ("Lie retraction", "LieVariableBase.manifold_retract")],
     ["VariableAssignments.manifold_retract", "VariableBase.manifold_retract"])

prop("C05", "Solving returns the least-squares optimum",
     "For a linear-Gaussian factor graph whose variables are fully determined by its factors, every combination of nonlinear and linear solver returns the weighted least-squares solution up to the solver's configured tolerances. For smooth nonlinear problems started near a well-conditioned minimum and given enough iterations, the returned assignments are a stationary point of the cost on the manifold with cost no larger than at the start. Values stay finite and on their manifolds.",
     ["inputs", "configurations"],
     "All well-conditioned linear-Gaussian graphs, nonlinear graphs in the basin of a minimum, and all combinations of nonlinear solver, linear solver and precision mode.",
     "Tests solve one or two fixed problems per solver and compare against hard-coded values; nothing is quantified over problem structure, noise weighting, or solver combination.",
     ["jaxfg/solvers/", "jaxfg/sparse/_linear_solve.py", CORE + "_stacked_factor_graph.py"],
     [("linearize-solve-retract loop", "NonlinearSolverBase.solve"), ("normal equations", "LinearSubproblemSolverBase.solve_subproblem")],
     ["StackedFactorGraph.solve"])

prop("C06", "Solutions do not depend on factor order, variable order or storage layout",
     "Permuting the factors passed to a graph, permuting the variables of the initial assignments, or creating the variables in another order gives the same solution value for every variable up to solver tolerance. The solution always comes back over the same variables in the storage layout of the initial assignments that the caller passed. This holds for every solver, including the fixed-iteration one.",
     ["inputs", "configurations"],
     "All permutations of factors and of assignment storage, all solvers, graphs over several variable types.",
     "Tests always pass assignments in the graph's own order for most solvers and never compare permuted runs.",
     [CORE + "_stacked_factor_graph.py", "jaxfg/solvers/", CORE + "_variable_assignments.py"],
     [("layout reconciliation on entry and exit", "NonlinearSolverBase.solve"), ("ordered set of variables", "StackedFactorGraph.make")],
     ["StackedFactorGraph.solve"])

prop("C07", "Trust-region solvers accept only steps that pay off and reject cleanly",
     "In the Levenberg-Marquardt and dogleg solvers a step is taken exactly when the ratio of actual to predicted cost change reaches the configured minimum quality; otherwise all variables keep their values and the next iteration works from the same residuals and linearization. Consequently, with a positive minimum quality, the cost never increases from one iteration to the next and the returned cost is never above the initial cost. Steps producing non-finite cost are never taken.",
     ["histories", "configurations"],
     "All iteration histories, including repeated rejections, rejections followed by acceptances, and overshooting or non-finite proposals, over all problems and step-quality settings.",
     "Tests only look at the final answer of easy problems where no step is ever rejected.",
     ["jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_dogleg_solver.py", "jaxfg/solvers/_mixins.py"],
     [("step quality ratio", "_TrustRegionMixin.compute_step_quality"), ("accept/reject selection of state", "_step of both solvers")],
     ["solver result as a function of the iteration limit", "linear subproblems passed to the configured linear solver"])

prop("C08", "Damping and trust radius adapt to step quality as configured",
     "Levenberg-Marquardt starts from the configured initial damping, divides it by the configured factor after every accepted step, multiplies it by that factor within the configured bounds after every rejected step, and each linear subproblem uses the current damping. The dogleg solver starts from the configured radius, never takes a step longer than the current radius, uses the full Gauss-Newton step when it fits, the steepest-descent direction cut to the radius when even the steepest-descent minimizer does not fit, and otherwise the point on the dogleg path at the radius. The radius halves when the step quality is below 1/4 or undefined, grows to at least three times the step length when the quality is above 3/4, and otherwise stays.",
     ["histories", "configurations"],
     "All iteration histories over problems that trigger accepted, rejected, interior and boundary steps; all configured initial values, factors and bounds.",
     "Tests never inspect damping or radius, and converge in a few accepted full steps with the default configuration.",
     ["jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_dogleg_solver.py"],
     [("damping update", "LevenbergMarquardtSolver._step"), ("dogleg step and radius update", "DoglegSolver._step")],
     ["damping passed to the configured linear solver", "difference between consecutive iterates"])

prop("C09", "Solvers stop exactly when the documented criteria say so",
     "A solver performs at most the configured maximum number of iterations and stops earlier exactly after a taken step that satisfies at least one documented criterion: relative cost change, infinity norm of the change under a projected gradient step (checked only from the configured iteration on), or step length relative to the parameter norm. Raising the iteration limit beyond the stopping iteration does not change the result, and lowering it returns exactly the iterate reached by then. Rejected trust-region steps never count as convergence.",
     ["histories", "configurations"],
     "All settings of the iteration limit (at least 1) and the tolerances, all solvers with convergence checks, all iteration histories.",
     "Tests run with default tolerances and only look at the answer, which many wrong stopping rules still produce.",
     ["jaxfg/solvers/_mixins.py", "jaxfg/solvers/_gauss_newton_solver.py", "jaxfg/solvers/_levenberg_marquardt_solver.py", "jaxfg/solvers/_dogleg_solver.py"],
     [("convergence checks", "_TerminationCriteriaMixin.check_convergence"), ("iteration limit", "_TerminationCriteriaMixin.check_exceeded_max_iterations")],
     ["number of linear subproblems solved", "solver result as a function of the iteration limit"])

prop("C10", "Fixed-iteration solver performs exactly the requested Gauss-Newton steps",
     "The fixed-iteration solver performs exactly the configured number (at least one) of undamped Gauss-Newton steps from the given start, without any convergence check, even if the start is already optimal. Its result equals that many manually chained single Gauss-Newton steps, whether or not the loop is unrolled and whatever the storage order of the initial assignments.",
     ["configurations", "inputs"],
     "All iteration counts of at least one, both unroll settings, all graphs and initial assignments.",
     "Tests only check the converged answer after the default number of iterations.",
     ["jaxfg/solvers/_fixed_iteration_gauss_newton_solver.py"],
     [("unrolled and while-loop drivers", "FixedIterationGaussNewtonSolver.solve"), ("loop exit", "FixedIterationGaussNewtonSolver._step")],
     ["StackedFactorGraph.solve result per iteration count", "number of linear subproblems solved"])

prop("C11", "Linear subproblem solvers solve the damped normal equations",
     "Given a sparse matrix A, a right-hand side g and damping d, the direct solver returns x solving (A'A + d I) x = g up to its documented small fixed regularization, and the conjugate-gradient solvers return x solving (A'A + d diag(A'A)) x = g up to their configured relative tolerance, which for the inexact variant is its parameter divided by the iteration number counted from one. This holds for every sparsity pattern, including unsorted, repeated and explicitly zero entries, and for any precision. Parameters that do not influence the residual get a zero, finite update when their right-hand side is zero.",
     ["inputs", "configurations"],
     "All sparse matrices (well-conditioned after damping), right-hand sides consistent with them, damping values of at least 0, iteration numbers and tolerances.",
     "No test calls a linear solver directly; they are exercised only through easy solves that converge even when individual subproblems are solved wrongly.",
     ["jaxfg/sparse/_linear_solve.py", "jaxfg/sparse/_sparse_matrix.py"],
     [("CHOLMOD factorization", "CholmodSolver.solve_subproblem"), ("preconditioned CG", "_ConjugateGradientSolver.solve_subproblem")],
     ["LinearSubproblemSolverBase.solve_subproblem"])

prop("C12", "Results do not depend on earlier work or on concurrent threads",
     "The result of evaluating or solving a graph depends only on its inputs: it is the same whether it is the first computation of the process, follows computations on other graphs (also over the same variables, with the same sizes or with similar sparsity patterns), is repeated, or runs while other threads solve other problems. Reusing solver objects, graphs or variables never mixes information between problems.",
     ["histories", "schedules"],
     "All sequences of graph evaluations and solves in one process sharing variables, shapes or solver objects, and all interleavings of several threads doing so.",
     "Each test solves one small graph per fresh structure in a single thread; cross-talk through process-wide caches needs particular sequences or interleavings.",
     ["jaxfg/sparse/_linear_solve.py", CORE + "_variables.py", "jaxfg/experimental/_sparse_covariance.py"],
     [("pattern-keyed analysis cache", "CholmodSolver"), ("compilation cache keyed by static fields", "jdc.jit on graph and solver methods")],
     ["StackedFactorGraph.solve", "LinearSubproblemSolverBase.solve_subproblem"],
     state=[("process-wide CHOLMOD analysis cache", "symbolic factorizations shared by all solves", "jaxfg/sparse/_linear_solve.py")])

prop("C13", "Sparse matrix operations agree with dense linear algebra",
     "For every sparse matrix, including rectangular, unsorted, repeated-coordinate, integer-valued, explicitly zero and empty ones, multiplying with a vector, transposing, converting to dense, and converting to and from the SciPy format agree with the same operations on the dense matrix in which repeated coordinates add up. Transposing twice gives back the same matrix. Vectors of the wrong length are rejected.",
     ["inputs"],
     "All shapes, coordinate multisets and orders, value and vector dtypes.",
     "One existing test uses matrices without repeats and one shape family; the densification path is untested.",
     ["jaxfg/sparse/_sparse_matrix.py"],
     [("scatter-add product", "SparseCooMatrix.__matmul__"), ("coordinate swap", "SparseCooMatrix.T"), ("SciPy conversions", "SparseCooMatrix.from_scipy_coo_matrix/as_scipy_coo_matrix")],
     ["SparseCooMatrix public methods"])

prop("C14", "Gaussian noise models whiten correctly and give the right joint NLL",
     "Whitening with a Gaussian noise model multiplies residuals and Jacobians by the given square-root precision, so that the squared whitened residual equals the Mahalanobis distance; building from a covariance gives the matching model, and diagonal models agree with full models having the same diagonal matrix. The joint negative log-likelihood of a graph equals the sum over its factors of the Mahalanobis distance plus the log-determinant of the factor's covariance, without overflow for extreme but representable scales. Models that are not Gaussian are rejected there.",
     ["inputs"],
     "All positive-definite covariances and invertible square-root precisions, all dimensions, residuals and mixtures of noise models in one graph.",
     "Tests use unit or isotropic weights nearly everywhere and check one small NLL value.",
     ["jaxfg/noises/_gaussians.py", CORE + "_stacked_factor_graph.py"],
     [("whitening", "Gaussian/DiagonalGaussian"), ("joint NLL", "StackedFactorGraph.compute_joint_nll")],
     ["NoiseModelBase.whiten_residual_vector", "NoiseModelBase.whiten_jacobian", "StackedFactorGraph.compute_joint_nll"])

prop("C15", "Huber-wrapped factors minimize the Huber loss",
     "For a factor with a Huber wrapper the threshold applies to the norm of the residual vector whitened by the wrapped model: below it, residual and Jacobian are exactly those of the wrapped model; above it, the whitened residual keeps its direction with squared norm equal to threshold times the original norm, and residual and Jacobian are scaled so that their product is half the gradient of the Huber loss. Solving a graph with Huber factors therefore returns the minimizer of the total Huber loss and bounds the influence of outliers. Derivatives are finite everywhere, including at zero residual.",
     ["inputs"],
     "All residuals (inliers, outliers, zero), thresholds, dimensions and wrapped models, and graphs mixing them with other factors.",
     "No existing test checks gradients or minimizers with outliers present.",
     ["jaxfg/noises/_huber.py", CORE + "_stacked_factor_graph.py"],
     [("residual and Jacobian reweighting", "HuberWrapper")],
     ["NoiseModelBase.whiten_residual_vector", "StackedFactorGraph.compute_whitened_residual_jacobian", "StackedFactorGraph.solve"])

prop("C16", "Marginal covariances equal blocks of the inverse information matrix",
     "For a graph with full-rank Jacobian J at given assignments, the dense covariance equals the inverse of J'J in the graph's local storage order by either of its computation routes, single entries are the entries of that matrix, and the marginal for a list of variables is the corresponding block in the order the variables were given. Results are symmetric, do not depend on which queries were made before, and are available for graphs with hundreds of variables.",
     ["inputs", "histories"],
     "All graphs with full-rank Jacobian over mixed variable types, all variable subsets and orders, all query sequences.",
     "Tests check one tiny chain, where elimination order happens to equal variable order.",
     ["jaxfg/experimental/_sparse_covariance.py"],
     [("square-root information matrix", "SparseCovariance.make"), ("recursive covariance recovery with cache", "SparseCovariance.__getitem__")],
     ["SparseCovariance.compute_marginal", "SparseCovariance.as_dense", "SparseCovariance.__getitem__"],
     state=[("entry cache", "covariance entries computed so far", "SparseCovariance")])

prop("C17", "Graph computations keep their meaning under jit, vmap and grad",
     "Evaluating costs, residuals, Jacobians and assignments inside jit gives the same results as outside. Mapping a graph or assignments over a leading batch axis gives, for every batch element, the same result as processing that element alone, including whole solves with the conjugate-gradient solvers. Gradients of costs, and of solutions of the unrolled fixed-iteration solver with respect to factor or noise parameters, agree with finite differences.",
     ["inputs", "programs"],
     "All graphs and batches of measurements, noise parameters or initial values; compositions of jit, vmap and grad supported by the chosen linear solver.",
     "Tests contain one batched example with identical structure and do not compare against per-element runs or finite differences.",
     [CORE + "_stacked_factor_graph.py", CORE + "_variable_assignments.py", "jaxfg/solvers/", "jaxfg/sparse/_linear_solve.py"],
     [("pytree dataclasses with static layout", "jdc.pytree_dataclass"), ("vanilla-JAX CG", "_ConjugateGradientSolver")],
     ["jax.jit / jax.vmap / jax.grad of graph methods"])

prop("C18", "Prior and between factors measure the documented pose error",
     "A prior factor's residual is the group logarithm of the inverse of the variable times the prior mean, and a between factor's residual is the group logarithm of the inverse of the relative pose of its second variable in the frame of its first, times the measured relative pose. It is zero exactly when the poses match the measurement, between residuals do not change when all poses are moved by a common rigid transform, and relative poses are directed from the first variable to the second. Solving a consistent pose graph recovers the poses that generated it.",
     ["inputs"],
     "All SO2, SE2, SO3 and SE3 elements (relative rotations away from the half-turn), measurements and noise weights.",
     "Tests only check that analytic and automatic Jacobians agree and solve one planar pose chain.",
     ["jaxfg/geometry/_factors.py", "jaxfg/geometry/_lie_variables.py"],
     [("residual definitions", "PriorFactor/BetweenFactor.compute_residual_vector")],
     ["FactorBase.compute_residual_vector", "StackedFactorGraph.solve"])

prop("C19", "g2o files are parsed faithfully",
     "Parsing a g2o pose-graph file yields, in file order, one variable per vertex with exactly the written initial pose, one between factor per edge directed from the first to the second listed vertex with the written relative pose and with a noise weight whose squared form is the written symmetric information matrix, plus one prior anchoring the first pose at its initial value. With a pose-count limit, exactly the first so many poses and the edges among them are kept. Blank lines and extra spaces are harmless, and malformed or unknown lines are rejected.",
     ["inputs"],
     "All well-formed planar and spatial g2o files with vertices numbered in order, all information matrices and pose-count limits.",
     "Nothing in the test suite calls the parser.",
     ["scripts/_g2o_utils.py"],
     [("line parser and information-matrix unpacking", "parse_g2o")],
     ["parse_g2o"])

prop("C20", "Factors receive exactly their own variables' values, in declared order",
     "Every time a factor's residual or Jacobian code runs, whether alone or inside a graph, it receives the values of its own variables in the order it declared them, in the structure of the variable's values, wrapped in the tuple type its signature asks for, with the factor's own parameters and static fields. A number or type of values that contradicts the declared signature is rejected with an error.",
     ["inputs", "programs"],
     "All factor classes (plain tuples, variadic tuples, named tuples), arities, repeated variables, nested value structures, and graphs containing several such classes.",
     "Tests use two factor signatures with one variable type each, for which swapped or misbuilt arguments are not visible.",
     [CORE + "_factor_base.py", CORE + "_factor_stack.py", CORE + "_variables.py"],
     [("value tuple construction and validation", "FactorBase.build_variable_value_tuple"), ("per-factor value gathering", "FactorStack.compute_residual_vector")],
     ["arguments seen by user factor code"])

prop("C21", "Computations are pure and progress reports are truthful",
     "Building, evaluating, solving and querying never modify the factors, noise models, graphs, assignments, arrays or solver settings passed in, and repeating a call gives an identical result. Turning progress printing on or off does not change results, and turning it off prints nothing. When on, every iteration is reported once, in order, with the cost before that iteration, and the final line reports the number of performed iterations and the cost of the returned assignments.",
     ["inputs", "configurations", "histories"],
     "All solvers, problems and iteration limits, with printing on and off; all public operations on all inputs.",
     "Tests ignore output and never compare inputs before and after.",
     ["jaxfg/solvers/_nonlinear_solver_base.py", "jaxfg/solvers/", CORE + "_variable_assignments.py"],
     [("host-callback printing", "NonlinearSolverBase._hcb_print"), ("frozen pytree dataclasses", "jdc.pytree_dataclass")],
     ["standard output during solve", "inputs before and after each call"])

prop("C22", "Inconsistent inputs are rejected instead of silently misused",
     "Using assignments whose variables do not match those of the graph, reading or writing a variable that is not part of the assignments, giving deltas that are not local ones for the same variables, giving values or residuals whose size contradicts the variable or noise model, building a between factor over different variable types or with a measurement from another group, or giving a non-square covariance raises an error. It never returns a result.",
     ["inputs"],
     "All graphs, assignments, layouts and values that are inconsistent in one of the listed ways.",
     "There is no negative test in the suite.",
     [CORE + "_variable_assignments.py", CORE + "_factor_base.py", CORE + "_factor_stack.py", "jaxfg/geometry/_factors.py", "jaxfg/noises/_gaussians.py"],
     [("assertions on layouts and shapes", "VariableAssignments.update_storage_layout, manifold_retract"), ("type assertions", "BetweenFactor.make, FactorBase.build_variable_value_tuple")],
     ["exceptions raised by public calls"])

prop("C23", "Storage layouts tile the storage vector exactly",
     "A storage layout built from any sequence of variables contains each distinct variable exactly once, gives every variable a contiguous block of its parameter dimension (or local dimension for local layouts), and these blocks cover the whole storage range without gaps or overlaps. Variables of one type form one contiguous run that starts where the layout says and has the stated count, variables and types are listed in ascending storage order, and layouts built from the same variables in the same order are equal and hash equally while different ones are unequal.",
     ["inputs"],
     "All sequences of variables, with any type mixture, interleaving and repeats, for global and local layouts.",
     "Tests only use layouts indirectly with one or two variable types in type-sorted order.",
     [CORE + "_storage_layout.py", CORE + "_variables.py"],
     [("bucketing by type and index assignment", "StorageLayout.make")],
     ["StorageLayout fields and accessors"])

prop("C24", "Solver iterations linearize at the current values and apply the step asked for",
     "In every iteration each nonlinear solver asks its linear solver once for a step, passing the graph's whitened Jacobian and negative gradient at the current values (with Huber weights where residuals are outliers), the iteration number counted from zero, and no damping except for Levenberg-Marquardt. Gauss-Newton and the fixed-iteration solver then move every variable by exactly the returned step through its type's retraction, whether or not the cost decreases. Levenberg-Marquardt either moves by exactly the returned step or leaves the values as they are.",
     ["inputs", "histories"],
     "All graphs including robust losses, all starting values and storage orders, all nonlinear solvers, and arbitrary steps returned by the linear solver in any iteration.",
     "Tests look at final solutions only, which damped, stale or rescaled steps still reach on easy problems.",
     ["jaxfg/solvers/", CORE + "_stacked_factor_graph.py", CORE + "_variable_assignments.py"],
     [("linearize and solve", "GaussNewtonSolver._step"), ("linearize and solve", "LevenbergMarquardtSolver._step"), ("linearize and solve", "DoglegSolver._step")],
     ["arguments and results of a recording linear solver", "assignments returned under increasing iteration limits"])

prop("C25", "The pose-graph script solves and draws the file it is given",
     "Running the pose-graph script on a g2o file solves the graph described by that file with the chosen nonlinear solver at its default settings, with every factor under a Huber loss if a threshold is given, and draws the file's initial positions and the optimized positions in file order, for planar and for spatial graphs. Unknown options or solvers, missing files and malformed files end with an error.",
     ["inputs", "configurations"],
     "All g2o files and all combinations of solver and Huber threshold on the command line.",
     "No test runs the script, and a wrong solution still looks plausible in a drawing.",
     ["scripts/", "jaxfg/"],
     [("command-line options to solver and losses", "pose_graph_g2o.main")],
     ["curves in the figure", "progress output", "exit status"])

prop("C26", "Tree helpers, timing and printed assignments report what they are given",
     "Stacking or concatenating trees does so leaf by leaf along the given axis, keeps their structure and rejects trees of different structure or incompatible sizes. The stopwatch announces its label before the block, reports the elapsed wall-clock time after it and lets exceptions through. Printed assignments list every variable in storage order with its type and its value.",
     ["inputs"],
     "All tree structures, leaf shapes and axes, all timed blocks including failing ones, and all mixtures of variables.",
     "No test uses these helpers, and printed values are never compared with stored ones.",
     ["jaxfg/utils.py", CORE + "_variable_assignments.py"],
     [("leafwise operations", "pytree_stack, pytree_concatenate"), ("measured block", "stopwatch"), ("printed form", "VariableAssignments.__repr__")],
     ["returned trees", "standard output"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
print(len(P), "properties")
