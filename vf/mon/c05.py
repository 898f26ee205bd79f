"""Solutions against the least-squares optimum, for all solver combinations."""
import numpy as np
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import graphs, zoo
from ..core import Ctx, Skip

NONLINEAR = ["gn", "lm", "dogleg", "fixed"]
LINEAR = ["cholmod", "cg", "inexact"]


def make_solver(ctx, nonlinear, linear, tight):
    S, L = jaxfg.solvers, jaxfg.sparse
    ls = {
        "cholmod": lambda: L.CholmodSolver(),
        "cg": lambda: L.ConjugateGradientSolver(tolerance=ctx.tol(1e-10, 1e-6) if tight else 1e-5),
        "inexact": lambda: L.InexactStepConjugateGradientSolver(inexact_step_eta=1e-2),
    }[linear]()
    if nonlinear == "fixed":
        return S.FixedIterationGaussNewtonSolver(verbose=False, linear_solver=ls, iterations=15, unroll=False)
    kw = dict(max_iterations=60, cost_tolerance=0.0, gradient_tolerance=1e-13, parameter_tolerance=1e-13,
              gradient_tolerance_start_step=0) if tight else {}
    cls = {"gn": S.GaussNewtonSolver, "lm": S.LevenbergMarquardtSolver, "dogleg": S.DoglegSolver}[nonlinear]
    return cls(verbose=False, linear_solver=ls, **kw)


def examine(ctx, case, out, want, opt, start_cost, tight, label):
    """Judge returned values against the optimum `want` with cost `opt`."""
    vals = case.read(out)
    for s, x in zip(case.specs, vals):
        ctx.check(np.all(np.isfinite(x)) and s.on_manifold(x) <= ctx.tol(1e-6, 1e-3), f"{label}: value is not finite or off its manifold",
                  type=s.name, value=x)
    cost = case.ref_cost(vals)
    ctx.check(cost <= start_cost * (1 + ctx.tol(1e-9, 1e-4)) + ctx.tol(1e-12, 1e-5), f"{label}: cost above the initial cost",
              cost=cost, initial=start_cost)
    if tight:
        ctx.check(cost - opt <= ctx.tol(1e-7, 1e-3) * (opt + 1e-3), f"{label}: not the minimum",
                  cost=cost, minimum=opt, values=vals, want=want)
        dev = graphs.canon_deviation(case, vals, want)
        ctx.check(dev <= ctx.tol(1e-4, 3e-2), f"{label}: not the minimizer", deviation=dev, values=vals, want=want)
    else:
        # Default tolerances stop at a relative cost change of 1e-5.
        ctx.check(cost - opt <= 1e-2 * opt + ctx.tol(1e-4, 1e-3) * start_cost + ctx.tol(1e-6, 1e-4), f"{label}: far from the minimum",
                  cost=cost, minimum=opt, initial=start_cost, values=vals, want=want)
    ctx.count(f"solves_{label}")
    ctx.count("solves")


def run_linear(ctx, combos):
    rng = ctx.rng
    pool = zoo.ARRAY_NAMES
    kinds = ["linear", "lineartwin", "scalarfield"]
    types = graphs.gen_types(rng, int(rng.integers(1, 4)), pool=pool, max_count=4)
    noise = zoo.GAUSS_KINDS + ["custom"]
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 5)), noise_kinds=noise, kinds=kinds)
    zero = [np.zeros(s.pdim) for s in case.specs]
    if not graphs.determine(rng, case, zero, ctx.tol(60.0, 15.0), noise):
        raise Skip("conditioning")
    graph = StackedFactorGraph.make(case.factors)
    J, r0 = case.ref_jacobian(zero), case.ref_residual(zero)
    x = np.linalg.lstsq(J, -r0, rcond=None)[0]
    want, k = [], 0
    for s in case.specs:
        want.append(x[k : k + s.pdim])
        k += s.pdim
    opt = case.ref_cost(want)
    ctx.note(graph=case.describe())
    for nonlinear, linear in combos:
        for tight in (True, False) if nonlinear != "fixed" else (True,):
            for scale in (1.0, 20.0):
                flats = case.rand_flats(rng, 1.0)
                flats = [f * scale for f in flats]
                a0 = case.assignments(flats, list(rng.permutation(len(flats))))
                out = graph.solve(a0, make_solver(ctx, nonlinear, linear, tight))
                examine(ctx, case, out, want, opt, case.ref_cost(flats), tight, f"linear_{nonlinear}_{linear}")
    if ctx.x64:
        # As many iterations of conjugate gradients as there are unknowns leave nothing to do.
        flats = case.rand_flats(rng, 1.0)
        solver = jaxfg.solvers.FixedIterationGaussNewtonSolver(
            verbose=False, iterations=2, unroll=False, linear_solver=jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-12))
        out = graph.solve(case.assignments(flats), solver)
        cost = case.ref_cost(case.read(out))
        ctx.check(cost - opt <= 1e-9 * (opt + 1e-3), "not the minimum after two steps solved to the end", cost=cost, minimum=opt, unknowns=J.shape[1])
        ctx.count("solves_to_the_end")
    ctx.nontrivial(("linear", combos, case.signature()))
    ctx.sample(dict(kind="linear", solvers=combos, **case.describe()))


def run_spread(ctx):
    """Linear problems in which precise and vague measurements meet."""
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    types = [ctx.pick(["R1", "R2", "R3"])] * n
    s = zoo.SPECS[types[0]]
    variables = [s.cls() for _ in types]
    unary, pair = (zoo.Template("linear", (types[0],) * k, s.pdim, "gauss") for k in (1, 2))
    plan = [(unary, [i]) for i in range(n)] + [(pair, [i, (i + 1) % n]) for i in range(n)]
    plan = [plan[i] for i in rng.permutation(len(plan))]
    weights = [float(10 ** rng.uniform(-1.5, 3.5)) for _ in plan]
    weights[int(rng.integers(len(plan)))] = 3e3
    if ctx.case % 16 == 6:
        # Some variables only take part in vague measurements.
        precise = int(rng.integers(n))
        weights = [float(10 ** (rng.uniform(4, 4.5) if precise in v and len(v) == 1 else rng.uniform(-0.5, 0.2))) for _, v in plan]
    fr = [zoo.instantiate(rng, t, variables, v, w) for (t, v), w in zip(plan, weights)]
    case = graphs.GraphCase(types, variables, [f for f, _ in fr], [r for _, r in fr], [t for t, _ in plan])
    zero = [np.zeros(s.pdim)] * n
    J, r0 = case.ref_jacobian(zero), case.ref_residual(zero)
    sv = np.linalg.svd(J, compute_uv=False)
    if sv[-1] < 0.02:
        raise Skip("conditioning")
    want = np.split(np.linalg.lstsq(J, -r0, rcond=None)[0], n)
    opt = case.ref_cost(want)
    graph = StackedFactorGraph.make(case.factors)
    ctx.note(graph=case.describe(), weights=weights)
    kw = dict(verbose=False, max_iterations=60, cost_tolerance=0.0, gradient_tolerance=1e-13, parameter_tolerance=1e-13, gradient_tolerance_start_step=0)
    S = jaxfg.solvers
    for solver in (S.GaussNewtonSolver(**kw), S.DoglegSolver(**kw), S.FixedIterationGaussNewtonSolver(verbose=False, iterations=15, unroll=False),
                   S.LevenbergMarquardtSolver(lambda_initial=1e-6, **kw)):
        flats = case.rand_flats(rng)
        vals = case.read(graph.solve(case.assignments(flats, list(rng.permutation(n))), solver))
        label = type(solver).__name__
        dev = graphs.canon_deviation(case, vals, want)
        ctx.check(case.ref_cost(vals) - opt <= 1e-5 * (opt + 1e-3), f"{label}: not the minimum of a problem with spread weights",
                  cost=case.ref_cost(vals), minimum=opt)
        ctx.check(dev <= 1e-3, f"{label}: not the minimizer of a problem with spread weights", deviation=dev, values=vals, want=want)
        ctx.count("solves_spread")
        ctx.count("solves")
    ctx.nontrivial(("spread", case.signature(), [round(w, 3) for w in weights]))


def run_nonlinear(ctx, combos):
    rng = ctx.rng
    types = graphs.gen_types(rng, int(rng.integers(1, 4)), max_count=2)
    types = graphs.companions(rng, types)
    noise = ["gauss", "gausscov", "diag", "diagcov"]
    truth = [zoo.SPECS[t].rand(rng, 0.6) for t in types]
    level = float(rng.choice([0.0, 0.02, 0.05]))
    kinds = [k for k in zoo.KINDS if k not in ("scalarfield", "pairmatrix", "se3point", "rigidscale")]
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 4)), per_template=3, noise_kinds=noise, kinds=kinds,
                            truth=truth, meas_noise=level)
    if not graphs.determine(rng, case, truth, ctx.tol(60.0, 15.0), noise, truth, level):
        raise Skip("conditioning")
    flats = case.retract(truth, [0.05 * rng.normal(size=s.ldim) for s in case.specs])
    want, ok = graphs.gauss_newton(case, flats)
    if not ok:
        raise Skip("reference does not converge")
    opt = case.ref_cost(want)
    graph = StackedFactorGraph.make(case.factors)
    ctx.note(graph=case.describe(), level=level)
    for nonlinear, linear in combos:
        for tight in (True, False) if nonlinear != "fixed" else (True,):
            a0 = case.assignments(flats, list(rng.permutation(len(flats))))
            out = graph.solve(a0, make_solver(ctx, nonlinear, linear, tight))
            examine(ctx, case, out, want, opt, case.ref_cost(flats), tight, f"nonlinear_{nonlinear}_{linear}")
    ctx.nontrivial(("nonlinear", combos, case.signature()))
    ctx.sample(dict(kind="nonlinear", solvers=combos, **case.describe()))


def run_case(ctx: Ctx):
    i = ctx.case // 2
    combo = lambda k: (NONLINEAR[k % 4], LINEAR[(k // 4 + k) % 3])
    if ctx.x64 and ctx.case % 8 == 6:
        run_spread(ctx)
    elif ctx.case % 2 == 0:
        run_linear(ctx, [combo(i), combo(i + 5)])
    else:
        run_nonlinear(ctx, [combo(i)])
