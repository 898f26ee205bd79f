"""Fixed-iteration solver: number of steps and their values."""
import jax_dataclasses as jdc
import numpy as np
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import graphs, probes, trace, zoo
from ..core import Ctx, Skip


def gn_step(case, columns, flats, eps):
    r, J = case.ref_residual(flats), case.ref_jacobian(flats, columns)
    H = J.T @ J + eps * np.eye(J.shape[1])
    step = np.linalg.solve(H, -J.T @ r)
    return case.retract(flats, [step[c : c + s.ldim] for c, s in zip(columns, case.specs)]), J, r


def run_zero(ctx):
    """Starts at which the cost is exactly zero."""
    rng = ctx.rng
    types = ["R2", "R3", "R2"]
    plan = [(zoo.Template("scalarfield", (t,), zoo.SPECS[t].pdim, "diag"), [i]) for i, t in enumerate(types)]
    variables = [zoo.SPECS[t].cls() for t in types]
    fr = [zoo.instantiate(rng, t, variables, v) for t, v in plan]
    case = graphs.GraphCase(types, variables, [f for f, _ in fr], [r for _, r in fr], [t for t, _ in plan])
    case.factors[:] = [jdc.replace(f, gain=1.0, offset=int(k)) for k, f in enumerate(case.factors)]
    flats = [np.full(s.pdim, -float(k)) for k, s in enumerate(case.specs)]
    graph = StackedFactorGraph.make(case.factors)
    ctx.check(float(graph.compute_cost(case.assignments(flats))[0]) == 0.0, "cost of an exact solution")
    for N in (2, 3, 5):
        solver = jaxfg.solvers.FixedIterationGaussNewtonSolver(verbose=False, linear_solver=probes.HostSolver(), iterations=N,
                                                               unroll=bool(rng.random() < 0.5))
        run = trace.run_solver(case, graph, case.assignments(flats, list(rng.permutation(3))), solver, probes.direct_policy(eps=1e-9), N)
        ctx.check(not run.overrun and len(run.subproblems) == N, "number of Gauss-Newton steps from an exact solution",
                  got=len(run.subproblems), want=N)
        ctx.close(np.concatenate(run.flats), np.concatenate(flats), "an exact solution was left", 0, 1e-12)
        ctx.count("zero_cost_starts")


def run_case(ctx: Ctx):
    rng = ctx.rng
    if ctx.case % 14 == 13:
        run_zero(ctx)
    family = [f for f in trace.FAMILIES if f not in ("log", "exp", "quartic")][ctx.case % 7]
    case = trace.gen_problem(rng, family)
    graph = StackedFactorGraph.make(case.factors)
    columns = case.columns(graph.local_storage_layout)
    N = [1, 2, 3, 4, 5][(ctx.case // 7) % 5]
    unroll = bool(rng.random() < 0.5)
    n = len(case.variables)
    Fixed = jaxfg.solvers.FixedIterationGaussNewtonSolver
    ctx.note(family=family, iterations=N, unroll=unroll, graph=case.describe())
    order = list(rng.permutation(n))
    if rng.random() < 0.3:
        index = {v: i for i, v in enumerate(case.variables)}
        order = [index[v] for v in graph.get_variables()]
    solver = Fixed(verbose=False, linear_solver=probes.HostSolver(), iterations=N, unroll=unroll)
    for rep in range(4):
        flats = case.rand_flats(rng, 0.3)
        if rep == 3 and family in ("linear", "sphere", "pose3", "pose2"):
            flats, ok = graphs.gauss_newton(case, flats)  # Already optimal
            if not ok:
                continue
            ctx.count("optimal_starts")
        a0 = case.assignments(flats, order)
        run = trace.run_solver(case, graph, a0, solver, probes.direct_policy(eps=1e-9), N)
        ctx.check(not run.overrun and len(run.subproblems) == N, "number of Gauss-Newton steps",
                  got="more" if run.overrun else len(run.subproblems), want=N, unroll=unroll)
        ctx.count("runs")
        x = flats
        for k, sub in enumerate(run.subproblems):
            ctx.check(sub.lambd == 0.0, "damped step", step=k, damping=sub.lambd)
            ctx.check(sub.iteration == k, "iteration number given to the linear solver", step=k, got=sub.iteration)
            if not case.tame(x):
                break
            x2, J, r = gn_step(case, columns, x, 1e-9)
            S = 1 + np.abs(J).max()
            if np.linalg.cond(J) > 1e3 or np.abs(np.concatenate(x2)).max() > 1e3:
                break
            ctx.close(sub.A.T @ sub.A, J.T @ J, f"step {k} is not linearized at the current values", 1e-4, 1e-6 * S * S)
            ctx.close(sub.g, -J.T @ r, f"right-hand side of step {k}", 1e-4, 1e-6 * S * (1 + np.abs(r).max()))
            x = x2
            ctx.count("steps")
        else:
            dev = graphs.canon_deviation(case, run.flats, x)
            ctx.check(dev <= 1e-4, "result differs from chained Gauss-Newton steps", deviation=dev, got=run.flats, want=x,
                      iterations=N, unroll=unroll)
            ctx.count("results")
    # The library's own linear solver: chained single steps.
    flats = case.rand_flats(rng, 0.3)
    if ctx.case % 2 == 0 and N > 1:
        a = a0 = case.assignments(flats, order)
        one = Fixed(verbose=False, iterations=1, unroll=bool(rng.random() < 0.5))
        for _ in range(N):
            a = graph.solve(a, one)
        got = graph.solve(a0, Fixed(verbose=False, iterations=N, unroll=not unroll))
        ctx.check(got.storage_layout == a0.storage_layout, "storage layout of the result")
        want = case.read(a)
        if all(np.all(np.isfinite(w)) and np.abs(w).max() < 1e3 for w in want):
            dev = graphs.canon_deviation(case, case.read(got), want)
            ctx.check(dev <= 1e-6, "N iterations differ from N single-iteration solves", deviation=dev, iterations=N)
            ctx.count("chained")
    ctx.nontrivial((family, N, unroll, order, case.signature()))
    ctx.sample(dict(family=family, iterations=N, unroll=unroll, **case.describe()))
