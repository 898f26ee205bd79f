"""How much each check runs, and what its verdict rests on.

`cases` gives case counts per tier and precision mode, `require` the least number of
monitored events below which a run is inconclusive.
"""
PLAN = {}


def plan(prop, rule, quick, thorough, require, assumptions=(), **kw):
    mk = lambda c: {"x64": c[0], "f32": c[1]}
    PLAN[prop] = dict(rule=rule, cases={"quick": mk(quick), "thorough": mk(thorough)}, require=require,
                      assumptions=list(assumptions), **kw)


plan("C01",
     "Random heterogeneous factor graphs (20 variable types, 14 factor classes, 7 noise models) evaluated in random storage orders, graphs whose weights span eight orders of magnitude, and graphs with more than 65536 stored numbers; a case is non-trivial if the graph has at least two factors; distinct by variable types, factor kinds, connectivity and noise.",
     (84, 24), (1200, 300), {"checks": 500, "residual_entries": 2000, "large_graphs": 1, "undefined": 20})
plan("C02",
     "Random graphs as in C01 with Gaussian and user-defined noise, differentiated numerically through the reference retraction, at poses of any orientation where no logarithm is involved, and linear graphs whose derivatives span thirty orders of magnitude; non-trivial if some factor has several variables or several variable types occur.",
     (80, 24), (700, 200), {"jacobian_entries": 20000, "graphs_with_repeated_variables": 5, "graphs_with_manifolds": 10, "magnitudes": 100, "turned": 4})
plan("C03",
     "Random histories of constructions (from JAX, numpy and integer values), single updates, reorderings and pytree round trips over mixed variable types, with up to 72000 stored numbers and with values and changes down to 1e-12, checked against a dictionary model after every operation; non-trivial if at least two variable types occur.",
     (150, 50), (1200, 400), {"operations": 500, "reads": 2000, "stacked_reads": 500, "large": 1, "tiny": 3, "zeros": 20})
plan("C04",
     "Random mixed-type assignments retracted by deltas from 1e-9 to several radians (vectors: to a million) in equal and different storage orders, starting from floating-point and integer values; non-trivial if a variable's local dimension differs from its parameter dimension and there are several variables.",
     (110, 40), (900, 300), {"retractions": 1500, "small_moves": 300, "integer_starts": 5, "large": 1, "far_moves": 10})
plan("C23",
     "Random sequences of variables of up to 8 types with interleaving and repeats, and no variables, global and local; non-trivial if at least two types occur.",
     (200, 40), (4000, 800), {"layouts": 500, "layout_variables": 3000})
TRACE = "the k-th iterate is observed as the result under iteration limit k; the harness's linear solver sees every subproblem"
plan("C07",
     "Iteration histories of LM and dogleg on ten small problem families with overshooting, stretched, NaN and infinite linear steps, and on a one-dimensional problem with a kink and long runs of rejections; non-trivial if at least one step is rejected; distinct by family, solver, policy and accept/reject history.",
     (100, 16), (900, 100), {"accepted": 300, "rejected": 100, "nonfinite": 20, "library_solves": 60, "kinks": 5}, [TRACE])
plan("C08",
     "Iteration histories as in C07 with random initial damping, factors, bounds and radii (down to the smallest), with steps that are not aligned with the gradient, and on the problem with a kink; non-trivial if the history contains at least two kinds of step.",
     (100, 0), (900, 0), {"damping_values": 500, "bounded": 20, "unbounded": 50, "steps_gauss-newton": 50, "steps_steepest": 50,
                          "steps_interpolated": 30, "radius_shrunk": 50, "radius_grown": 50, "radius_kept": 10, "kink_steps": 20, "steps_bent_back": 5}, [TRACE])
plan("C09",
     "Iteration histories of GN, LM and dogleg with criteria enabled separately and together and limits from 1 to 27, with NaN steps and long runs of rejections; distinct by family, solver, history, limit and number of iterations.",
     (120, 0), (1000, 0), {"stopped_by_cost": 40, "stopped_by_gradient": 20, "stopped_by_parameter": 30, "stopped_by_limit": 50,
                           "continued": 500, "rejections_survived": 5, "faulty_histories": 3}, [TRACE])
plan("C05",
     "Determined linear-Gaussian graphs against numpy least squares and nonlinear graphs started near the minimum against reference Gauss-Newton, over all 12 solver combinations with tight and default tolerances, linear graphs solved by two steps of conjugate gradients run to the end, and linear graphs whose factors have very different weights; non-trivial if the reference converges; distinct by solvers and graph.",
     (64, 16), (700, 200), {"solves": 120, "solves_spread": 10, "solves_to_the_end": 4})
plan("C06",
     "Determined nonlinear graphs solved with ten solver combinations in the graph's own order, in a random storage order, and rebuilt over newly created variables with permuted factors, every other graph with variables of one type, and graphs of independent variables some of which start at their best values; non-trivial if the solution moved by more than 1e-3.",
     (44, 14), (500, 150), {"comparisons": 60, "comparisons_single_type": 20, "comparisons_settled": 4})
plan("C10",
     "Fixed-iteration runs with 1 to 5 iterations, unrolled and looped, on seven problem families from random, reordered and optimal starts and from starts of zero cost.",
     (98, 0), (800, 0), {"runs": 200, "steps": 300, "results": 100, "optimal_starts": 10, "chained": 10, "zero_cost_starts": 5}, [TRACE])
plan("C11",
     "Random sparse systems (sorted, unsorted, repeated coordinates, explicit zeros, free parameters, wide and tall, graded columns, up to 70 parameters) with damping from 0 to 30, solved by all three linear solvers eagerly and under jit; distinct by pattern.",
     (200, 90), (2500, 900), {"direct": 400, "cg_damped": 60, "cg_undamped": 60, "inexact_damped": 60, "inexact_undamped": 60,
                             "patterns_with_free_parameters": 15, "patterns_repeated": 20, "direct_many": 10, "cg_many": 5, "graded": 10})
plan("C13",
     "Random sparse matrices (rectangular, unsorted, repeated, integer, explicitly zero, empty, and with coordinates up to a million) against dense numpy; non-trivial if the pattern is unsorted or repeated or the matrix is not square; distinct by pattern.",
     (300, 120), (5000, 2000), {"matrices": 300, "products": 2000, "rejections": 500, "matrices_repeated": 60, "matrices_int": 60, "matrices_empty": 5, "matrices_large": 10})
plan("C12",
     "Random sequences of direct solves over colliding sparsity patterns with up to 250 columns, of graph evaluations and solves over shared variables with reused solvers and cleared compilation caches, and concurrent solves from four threads with forced switching; distinct by history.",
     (96, 24), (800, 200), {"direct_solves": 500, "graph_solves": 150, "repeats": 60, "threaded_solves": 200, "direct_solves_large": 20, "graph_solves_large": 4, "type_reads": 20},
     ["thread schedules are sampled, not enumerated"])
plan("C14",
     "Random noise models of every construction against dense matrices, joint NLL of random graphs and of graphs whose determinants leave the floating-point range; distinct by model or graph.",
     (130, 60), (1500, 600), {"models": 400, "nll": 80, "nll_extreme": 25, "rejections": 8})
plan("C15",
     "Huber wrappers with thresholds from 1e-6 to 1e5 at eleven residual norms around them, also wrapped twice, graphs with mixed inliers and outliers, and convex regression problems with gross outliers against BFGS; distinct by model, graph and solver.",
     (96, 32), (1000, 300), {"inliers": 100, "outliers": 100, "derivatives": 200, "wrapped_twice": 100, "graph_outliers": 60, "graph_evaluations": 60, "minimizers": 8})
plan("C16",
     "Random determined graphs and their covariance objects at several assignments, with Gaussian noise (covariances from 1e-12 to 1e6, also within one graph from precise to vague) and with down-weighted outliers, queried in random interleaved sequences with results overwritten by the caller; vectors in units up to four orders of magnitude apart; chains of up to 400 variables; distinct by graph.",
     (56, 16), (600, 150), {"entries": 300, "marginals": 100, "dense": 100, "marginals_large": 6, "outliers": 5, "units": 20})
plan("C18",
     "Prior and between factors on all Lie variables with angles from 0 to 3, gauge transforms of random between graphs, and consistent pose graphs with random trees, loops and directions; distinct by poses or graph.",
     (72, 24), (800, 250), {"residuals_prior": 100, "residuals_between": 80, "gauge": 20, "recovered": 25})
plan("C17",
     "Random graphs and their siblings with other numbers evaluated eagerly, under jit and under vmap over graphs, assignments or both; batched solves whose elements converge at different speeds; gradients of costs, and of solutions with and without Huber losses, against finite differences; distinct by graph, mode and solver.",
     (72, 16), (800, 150), {"jit_evaluations": 40, "vmap_evaluations": 40, "assignment_operations": 60, "vmap_solves": 20, "jit_solves": 12, "gradients": 20,
                            "solution_gradients": 5, "solution_derivatives": 5})
plan("C19",
     "Generated SE2 and SE3 files with varied number formats, spacing, blank lines, edge directions and interleaving, with and without pose limits; single malformations of them; truncated shipped data sets; files of thousands of poses; distinct by file.",
     (300, 100), (4000, 1200), {"vertices": 1500, "edges": 1500, "limits": 200, "rejections": 500, "shipped": 30, "graphs": 4, "long_files": 2})
plan("C20",
     "Factors of 16 classes that return an encoding of everything they receive and record its form, alone and in graphs with near-identical factors; contradicting value tuples; distinct by factors and variables.",
     (200, 80), (2000, 700), {"executions": 500, "factors": 200, "graph_evaluations": 80, "jacobian_evaluations": 30, "rejections": 80})
plan("C21",
     "Random sequences of about thirty kinds of public calls over one set of inputs with all inputs, including the lists, dictionaries and matrices the caller passes, compared before and after every call, partly with write-protected arrays; progress output of all solvers on ten problem families with accepted and rejected steps; distinct by graph, solver and history.",
     (84, 12), (800, 150), {"operations": 800, "repeats": 200, "silent_runs": 25, "reported_iterations": 60, "reports_gn": 3, "reports_lm": 3, "reports_dogleg": 3, "reports_fixed": 3})
plan("C22",
     "Valid graphs, assignments, deltas, values, noise models and pose factors, each made inconsistent in one respect and used through every public entry point; the valid counterpart must be accepted; distinct by graph and inconsistency.",
     (224, 56), (2000, 500), {"rejections": 800, "accepted": 60})
plan("C24",
     "Runs of all four nonlinear solvers on nine problem families and on general graphs with and without Huber losses, with solved, stretched, reversed and random linear steps and with the library's linear solvers watched, for up to 14 iterations, and runs with steps of plain vectors up to a million long; distinct by graph, solver and limit.",
     (100, 20), (900, 200), {"subproblems": 300, "subproblems_late": 10, "subproblems_weighted": 60, "steps_gn": 100, "steps_lm": 20, "steps_fixed": 50, "steps_uphill": 20, "steps_far": 15}, [TRACE])
plan("C25",
     "Runs of the pose-graph script on generated planar and spatial files with 3 to 7 poses, all four solvers, with and without a Huber threshold and outliers, and with invalid options and files, judged by the curves left in the figure; distinct by file, solver and threshold.",
     (44, 10), (420, 120), {"runs": 15, "runs_SE2": 5, "runs_SE3": 5, "runs_gauss_newton": 2, "runs_levenberg_marquardt": 2, "runs_dogleg": 2, "runs_fixed_iteration_gauss_newton": 2, "huber": 5, "least_squares": 5, "rejections": 5})
plan("C26",
     "Random trees of six forms with one to three axes stacked and concatenated along every axis, eagerly and compiled, timed blocks that wait or fail, and printed mixed-type assignments; distinct by form, shapes and types.",
     (240, 80), (3000, 1000), {"leaves": 300, "rejections": 100, "times": 10, "failing_blocks": 5, "printed": 60})
