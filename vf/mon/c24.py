"""What the nonlinear solvers ask of the linear solver, and what they do with the answer."""
import numpy as np
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import graphs, probes, trace, zoo
from ..core import Ctx, Skip

NAMES = ["gn", "gn", "lm", "dogleg", "fixed"]


def gen_problem(ctx):
    """Problem families of the histories, and general graphs with robust losses."""
    rng = ctx.rng
    if ctx.case % 2:
        family = ctx.pick([f for f in trace.FAMILIES if f != "log"])
        case = trace.gen_problem(rng, family)
        return family, case, lambda: case.rand_flats(rng, 0.6)
    noise = ["huber", "huber", "gauss", "diag"] if rng.random() < 0.6 else zoo.GAUSS_KINDS + ["custom"]
    kinds = ["linear", "any", "analytic", "lineartwin"] + ctx.tol(["prior", "between", "poselandmark"], [])
    types = graphs.companions(rng, graphs.gen_types(rng, int(rng.integers(1, 4)), max_count=3))
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 4)), per_template=3, noise_kinds=noise, kinds=kinds)
    return "graph", case, lambda: case.tame_flats(rng, 0.6)


def gen_policy(rng):
    """Any step at all: solved, stretched, reversed or random."""
    plan = [(int(rng.integers(4)), float(rng.uniform(0.2, 2.5)), int(rng.integers(2**31))) for _ in range(16)]
    honest = probes.direct_policy(eps=1e-6)

    def policy(k, A, g, lambd):
        kind, scale, seed = plan[k]
        if kind == 0:
            x = honest(k, A, g, lambd)
        elif kind == 1:
            x = scale * honest(k, A, g, lambd)
        elif kind == 2:
            x = -0.3 * honest(k, A, g, lambd)
        else:
            x = 0.3 * np.random.default_rng(seed).normal(size=len(g))
        # Bounded, so that the values stay where everything is well defined.
        n = np.linalg.norm(x)
        return x if n < 1.0 else x / n

    return policy


def make_solver(ctx, name, linear, K):
    S = jaxfg.solvers
    if name == "fixed":
        return S.FixedIterationGaussNewtonSolver(verbose=False, linear_solver=linear, iterations=K, unroll=bool(ctx.rng.random() < 0.5))
    cfg = dict(cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0)
    if name == "dogleg" and ctx.rng.random() < 0.6:
        cfg["radius_initial"] = float(10 ** ctx.rng.uniform(-3, 1))
    if name == "lm" and ctx.rng.random() < 0.6:
        cfg["lambda_initial"] = float(10 ** ctx.rng.uniform(-6, 2))
    return trace.SOLVERS[name](verbose=False, linear_solver=linear, max_iterations=K, **cfg)


def follow(case, columns, start, run):
    """The values before every solve of one run, if every step is applied."""
    points = [start]
    for sub in run.subproblems:
        points.append(case.retract(points[-1], [sub.x[c : c + s.ldim] for c, s in zip(columns, case.specs)]))
    return points


def far(ctx):
    """Very long steps of plain vectors."""
    rng = ctx.rng
    types = graphs.gen_types(rng, int(rng.integers(1, 4)), pool=["R1", "R2", "R3", "R5", "VecA", "VecB"], max_count=3)
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 4)), per_template=3, noise_kinds=["gauss", "diag"], kinds=["linear"])
    graph = StackedFactorGraph.make(case.factors)
    columns = case.columns(graph.local_storage_layout)
    name = ctx.pick(["gn", "fixed", "gn", "lm"])
    K = 1 if name == "lm" else int(rng.integers(1, 4))
    size = 10.0 ** rng.uniform(0, 6)
    steps = [size * rng.normal(size=sum(s.ldim for s in case.specs)) for _ in range(K)]
    honest = probes.direct_policy(eps=1e-6)
    policy = (lambda k, A, g, lambd: honest(k, A, g, lambd)) if name == "lm" else (lambda k, A, g, lambd: steps[k])
    flats = case.rand_flats(rng, size if name == "lm" else 1.0)
    a0 = case.assignments(flats, list(rng.permutation(len(case.variables))))
    ctx.note(graph=case.describe(), solver=name, K=K, start=flats, size=size)
    run = trace.run_solver(case, graph, a0, make_solver(ctx, name, probes.HostSolver(), K), policy, K)
    ctx.check(len(run.subproblems) == K, "one linear solve per iteration", got=len(run.subproblems), want=K)
    start = case.read(a0)
    want = follow(case, columns, start, run)[-1]
    scale = max(np.abs(x).max() for x in want + start) + max(np.abs(s.x).max() for s in run.subproblems)
    dev = max(np.abs(x - y).max() for x, y in zip(run.flats, want))
    if name == "lm" and all(np.array_equal(x, y) for x, y in zip(run.flats, start)):
        ctx.count("steps_refused")
        return
    ctx.check(dev <= ctx.tol(1e-9, 1e-4) * scale, "the values were not moved by the long step of the linear solver", deviation=dev, solver=name,
              before=start, after=run.flats, want=want, steps=[s.x for s in run.subproblems])
    ctx.count("steps_far", K if size > 30 else 0)


def run_case(ctx: Ctx):
    rng = ctx.rng
    if ctx.case % 3 == 0:
        far(ctx)
    family, case, start = gen_problem(ctx)
    graph = StackedFactorGraph.make(case.factors)
    columns = case.columns(graph.local_storage_layout)
    n = len(case.variables)
    name = NAMES[ctx.case % len(NAMES)]
    for rep in range(3):
        flats = start()
        if flats is None:
            raise Skip("angles")
        K = int(rng.integers(8, 15)) if rep == 1 and name != "fixed" and ctx.case % 4 < 2 else int(rng.integers(1, 6))
        watched = rep == 2
        linear = probes.HostSolver()
        if watched:
            L = jaxfg.sparse
            linear = probes.WatchedSolver(ctx.pick([L.CholmodSolver(), L.ConjugateGradientSolver(), L.InexactStepConjugateGradientSolver()]))
        policy = gen_policy(rng)
        order = list(rng.permutation(n))
        a0 = case.assignments(flats, order)
        ctx.note(family=family, graph=case.describe(), solver=name, K=K, watched=watched, start=flats)
        seed = int(rng.integers(2**31))
        runs = []
        for k in range(1, K + 1):
            # The same choices under every limit.
            ctx.rng = np.random.default_rng(seed)
            runs.append(trace.run_solver(case, graph, a0, make_solver(ctx, name, linear, k), policy, k))
        ctx.rng = rng
        ctx.check(not any(r.overrun for r in runs), "more linear solves than iterations", limit=K)
        full = runs[-1]
        ctx.check(len(full.subproblems) == K, "one linear solve per iteration", got=len(full.subproblems), want=K)
        xs = [case.read(a0)] + [r.flats for r in runs]
        taken = name in ("gn", "fixed")
        for k in range(K):
            # Runs with other limits may round differently, so each is compared with its own steps.
            ctx.check(len(runs[k].subproblems) == k + 1, "one linear solve per iteration", got=len(runs[k].subproblems), want=k + 1)
            sub = runs[k].subproblems[k]
            points = follow(case, columns, xs[0], runs[k]) if taken else None
            if taken:
                xs[k] = points[k]
            where = dict(iteration=k, solver=name, watched=watched, graph=case.describe())
            if not all(np.all(np.isfinite(x)) and np.abs(x).max() < 50 for x in xs[k]) or not case.tame(xs[k]):
                break
            w = graphs.huber_weights(case, xs[k])
            if w is None:
                break
            ctx.check(sub.iteration == k, "number of the iteration", got=sub.iteration, **where)
            if name != "lm":
                ctx.check(sub.lambd == 0.0, "damping", got=sub.lambd, **where)
            else:
                ctx.check(sub.lambd > 0.0, "no damping", got=sub.lambd, **where)
            J = w[:, None] * case.ref_jacobian(xs[k], columns)
            r = case.ref_residual(xs[k])
            S = 1 + np.abs(J).max()
            if not np.all(np.isfinite(J)) or S > 1e3:
                break
            J2 = w[:, None] * case.ref_jacobian(xs[k], columns, h=5e-4)
            if np.abs(J2 - J).max() > 1e-6 * S:
                break
            t = ctx.tol(1e-5, 5e-3)
            ctx.close(sub.A.T @ sub.A, J.T @ J, "the matrix is not that of the current values", t, t * S * S * 0.1, values=xs[k], **where)
            ctx.close(sub.g, -J.T @ r, "the right-hand side is not the negative gradient at the current values", t,
                      t * S * (1 + np.abs(r).max()), values=xs[k], **where)
            ctx.count("subproblems")
            ctx.count("subproblems_late", k >= 6)
            ctx.count("subproblems_weighted", bool((w < 1).any()))
            if not np.all(np.isfinite(sub.x)) or np.abs(sub.x).max() > 10:
                break
            if name in ("gn", "fixed", "lm"):
                want = points[k + 1] if taken else case.retract(xs[k], [sub.x[c : c + s.ldim] for c, s in zip(columns, case.specs)])
                dev = graphs.canon_deviation(case, xs[k + 1], want)
                if name == "lm" and graphs.canon_deviation(case, xs[k + 1], xs[k]) == 0:
                    ctx.count("steps_refused")
                    continue
                ctx.check(dev <= ctx.tol(1e-7 if taken or not watched else 1e-5, 1e-3), "the values were not moved by the step of the linear solver", deviation=dev,
                          before=xs[k], after=xs[k + 1], want=want, step=sub.x, **where)
                ctx.count(f"steps_{name}")
                if name == "gn" and case.ref_cost(xs[k + 1]) > case.ref_cost(xs[k]):
                    ctx.count("steps_uphill")
        ctx.nontrivial((family, name, K, watched, case.signature()))
    ctx.sample(dict(family=family, solver=name, **case.describe()))
