"""Solutions under permutation of factors, variables and storage."""
import numpy as np
import jax_dataclasses as jdc
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import graphs, zoo
from ..core import Ctx, Skip

COMBOS = [("gn", "cholmod"), ("lm", "cg"), ("dogleg", "cholmod"), ("fixed", "cholmod"), ("gn", "cg"), ("lm", "cholmod"),
          ("fixed", "cg"), ("dogleg", "cg"), ("fixed_unrolled", "cholmod"), ("gn", "inexact")]


def make_solver(ctx, nonlinear, linear, iterations):
    S, L = jaxfg.solvers, jaxfg.sparse
    ls = {"cholmod": lambda: L.CholmodSolver(), "cg": lambda: L.ConjugateGradientSolver(tolerance=ctx.tol(1e-12, 1e-6)),
          "inexact": lambda: L.InexactStepConjugateGradientSolver(inexact_step_eta=ctx.tol(1e-10, 1e-5))}[linear]()
    if nonlinear.startswith("fixed"):
        return S.FixedIterationGaussNewtonSolver(verbose=False, linear_solver=ls, iterations=min(iterations, 3),
                                                 unroll=nonlinear == "fixed_unrolled")
    cls = {"gn": S.GaussNewtonSolver, "lm": S.LevenbergMarquardtSolver, "dogleg": S.DoglegSolver}[nonlinear]
    return cls(verbose=False, linear_solver=ls, max_iterations=iterations)


def permuted(rng, case):
    """The same problem over newly created variables, with factors in another order."""
    n = len(case.variables)
    fresh = [None] * n
    for i in rng.permutation(n):
        fresh[i] = type(case.variables[i])()
    index = {v: i for i, v in enumerate(case.variables)}
    forder = rng.permutation(len(case.factors))
    factors = [jdc.replace(case.factors[j], variables=tuple(fresh[index[v]] for v in case.factors[j].variables)) for j in forder]
    return graphs.GraphCase(case.types, fresh, factors, [case.refs[j] for j in forder], [case.templates[j] for j in forder])


def solve(ctx, case, graph, solver, flats, order, label):
    a0 = case.assignments(flats, order)
    out = graph.solve(a0, solver)
    ctx.check(out.storage_layout == a0.storage_layout, f"{label}: solution has another storage layout than the initial assignments",
              order=order)
    ctx.check(list(out.get_variables()) == list(a0.get_variables()), f"{label}: solution has other variables")
    ctx.check(np.shape(out.storage) == np.shape(a0.storage), f"{label}: storage size")
    return case.read(out)


def run_case(ctx: Ctx):
    rng = ctx.rng
    nonlinear, linear = COMBOS[ctx.case % len(COMBOS)]
    pool = ["R1", "R2", "R3", "R5", "SO2", "SE2", "SO3", "SE3", "VecA", "VecB", "Affine", "Pair", "Sphere", "Dict"]
    if (ctx.case // len(COMBOS)) % 2:
        types = [ctx.pick(pool)] * int(rng.integers(2, 5))  # A single type
    else:
        types = graphs.gen_types(rng, int(rng.integers(2, 4)), max_count=3, pool=pool)
    # Independent variables, those of one type at their best values already.
    settled = (ctx.case // len(COMBOS)) % 4 == 2
    noise = ["gauss", "gausscov", "diag", "diagcov"]
    truth = [zoo.SPECS[t].rand(rng, 0.6) for t in types]
    if settled:
        case = graphs.GraphCase(types, [zoo.SPECS[t].cls() for t in types], [], [], [])
        for i in range(2 * len(types)):
            graphs.add_unary(rng, case, i % len(types), noise, truth, 0.05)
    else:
        case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 4)), per_template=3, noise_kinds=noise,
                                kinds=["prior", "between", "linear", "any"], truth=truth, meas_noise=0.05)
    if not graphs.determine(rng, case, truth, ctx.tol(60.0, 15.0), noise, truth, 0.05):
        raise Skip("conditioning")
    flats = case.retract(truth, [0.1 * rng.normal(size=s.ldim) for s in case.specs])
    best, converged = graphs.gauss_newton(case, flats)
    if not converged:
        raise Skip("far from a minimum")
    if settled:
        kind = types[case.refs[0].vidx[0]]
        flats = [b if t == kind else f for t, b, f in zip(types, best, flats)]
    graph = StackedFactorGraph.make(case.factors)
    n = len(case.variables)
    ctx.note(graph=case.describe(), solver=(nonlinear, linear))
    solver = make_solver(ctx, nonlinear, linear, int(rng.integers(2, 5)))
    base = solve(ctx, case, graph, solver, flats, list(graph_order(case, graph)), "graph order")
    moved = graphs.canon_deviation(case, base, flats)
    order = list(rng.permutation(n))
    if order == graph_order(case, graph):
        order = order[::-1]
    runs = [("storage order", case, graph, order)]
    other = permuted(rng, case)
    og = StackedFactorGraph.make(other.factors)
    runs.append(("factor and creation order", other, og, list(rng.permutation(n))))
    for label, c, g, order in runs:
        vals = solve(ctx, c, g, solver, flats, order, label)
        dev = graphs.canon_deviation(case, vals, base)
        # At tiny angles jaxlie's logarithms carry noise.
        tol = ctx.tol(1e-6 if case.tame(base, 1e-3) else 1e-3, 1e-2)
        ctx.check(dev <= tol, f"{label}: different solution with {nonlinear}/{linear}", deviation=dev, order=order,
                  values=vals, base=base)
        ctx.count("comparisons")
        ctx.count(f"comparisons_{nonlinear}_{linear}")
        ctx.count("comparisons_single_type", len(set(types)) == 1)
        ctx.count("comparisons_settled", settled)
    if moved > 1e-3:
        ctx.nontrivial((nonlinear, linear, case.signature()))
    ctx.sample(dict(solver=[nonlinear, linear], **case.describe()))


def graph_order(case, graph):
    index = {v: i for i, v in enumerate(case.variables)}
    return [index[v] for v in graph.get_variables()]
