"""Graph computations under jit, vmap and grad."""
import numpy as np
import jax
from jax import numpy as jnp
import jaxfg
from jaxfg.core import StackedFactorGraph, StorageLayout, VariableAssignments

from .. import graphs, zoo
from ..core import Ctx, Skip


def stack(rng, trees):
    if rng.random() < 0.5:
        return jaxfg.utils.pytree_stack(*trees)
    return jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(k) for k in x]), *trees)


def siblings(rng, case, count, truth=None, meas_noise=0.0):
    """Graphs over the same variables and connectivity with different numbers."""
    out = [case]
    for _ in range(count - 1):
        fr = [zoo.instantiate(rng, t, case.variables, r.vidx, 1.0, truth, meas_noise) for t, r in zip(case.templates, case.refs)]
        out.append(graphs.GraphCase(case.types, case.variables, [f for f, _ in fr], [r for _, r in fr], case.templates))
    return out


def evaluate(graph, a):
    cost, r = graph.compute_cost(a)
    A = graph.compute_whitened_residual_jacobian(a, r)
    return dict(cost=cost, residual=graph.compute_whitened_residual_vector(a), residual2=r, jacobian=A.values,
                rows=A.coords.rows, cols=A.coords.cols, dense=A.as_dense(), product=A.T @ r)


def agree(ctx, got, want, label, tol, **info):
    for k in want:
        w = np.asarray(want[k], float)
        ctx.close(got[k], w, f"{label}: {k}", 0, tol * (1 + (np.abs(w).max() if w.size else 0)), **info)


def gen(ctx, noise=None):
    rng = ctx.rng
    noise = zoo.GAUSS_KINDS + ["custom", "huber:gauss", "huber:diagcov"] if noise is None else noise
    kinds = None if ctx.x64 else [k for k in zoo.KINDS if k not in ("prior", "between")]
    types = graphs.companions(rng, graphs.gen_types(rng, int(rng.integers(1, 4)), max_count=3))
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 4)), per_template=3, noise_kinds=noise, kinds=kinds)
    # Keep the angles where logarithms are well conditioned.
    for _ in range(30):
        flats = case.rand_flats(rng, 0.7)
        if case.tame(flats):
            return case, flats
    raise Skip("angles")


def run_eval(ctx):
    rng = ctx.rng
    case, flats = gen(ctx)
    B = int(rng.integers(2, 5))
    cases = siblings(rng, case, B)
    gs = [StackedFactorGraph.make(c.factors, use_onp=bool(rng.random() < 0.5)) for c in cases]
    order = list(rng.permutation(len(flats)))
    points = [flats]
    for c in cases[1:]:
        p = c.rand_flats(rng, 0.7)
        for _ in range(20):
            if c.tame(p):
                break
            p = c.rand_flats(rng, 0.7)
        points.append(p)
    As = [case.assignments(p, order) for p in points]
    ctx.note(graph=case.describe())
    tol = ctx.tol(1e-9, 1e-3)
    want = [evaluate(g, a) for g, a in zip(gs, As)]
    f = jax.jit(evaluate)
    for i in range(B):
        agree(ctx, f(gs[i], As[i]), want[i], "jit", tol, element=i)
        ctx.count("jit_evaluations")
    # Closed-over graph or assignments.
    i = int(rng.integers(B))
    agree(ctx, jax.jit(lambda a: evaluate(gs[i], a))(As[i]), want[i], "jit with fixed graph", tol)
    mode = ctx.pick(["both", "assignments", "graph"])
    ga, aa = stack(rng, gs), stack(rng, As)
    if mode == "both":
        got = jax.vmap(evaluate)(ga, aa)
        ref = want
    elif mode == "assignments":
        got = jax.vmap(evaluate, in_axes=(None, 0))(gs[0], aa)
        ref = [evaluate(gs[0], a) for a in As]
    else:
        got = jax.vmap(evaluate, in_axes=(0, None))(ga, As[0])
        ref = [evaluate(g, As[0]) for g in gs]
    if mode != "both" and not all(c.tame(p) for c in cases for p in points):
        return
    for i in range(B):
        agree(ctx, {k: v[i] for k, v in got.items()}, ref[i], f"vmap over {mode}", tol, element=i)
        ctx.count("vmap_evaluations")
    if B > 2 and ctx.case % 3 == 0:
        got = jax.jit(jax.vmap(lambda g, a: g.compute_cost(a)[0]))(ga, aa)
        ctx.close(got, [float(w["cost"]) for w in want], "jit of vmap: cost", tol, tol)
    ctx.nontrivial(("eval", mode, B, case.signature()))
    ctx.sample(dict(kind="evaluation", mode=mode, batch=B, **case.describe()))


def run_assignments(ctx):
    """Assignment operations inside jit and vmap."""
    rng = ctx.rng
    types = graphs.gen_types(rng, int(rng.integers(1, 5)), max_count=3)
    specs = [zoo.SPECS[t] for t in types]
    variables = [s.cls() for s in specs]
    case = graphs.GraphCase(types, variables, [], [], [])
    n = len(types)
    order, target = list(rng.permutation(n)), list(rng.permutation(n))
    layout = StorageLayout.make([variables[i] for i in target], local=False)
    local = StorageLayout.make([variables[i] for i in (order if rng.random() < 0.5 else rng.permutation(n))], local=True)
    k = int(rng.integers(n))
    B = int(rng.integers(2, 5))
    points = [case.rand_flats(rng) for _ in range(B)]
    As = [case.assignments(p, order) for p in points]
    news = [specs[k].rand(rng) for _ in range(B)]
    deltas = [[rng.normal(size=s.ldim) * 0.5 for s in specs] for _ in range(B)]
    index = {v: i for i, v in enumerate(variables)}
    ds = [VariableAssignments(storage=jnp.concatenate([jnp.asarray(d[index[v]]) for v in local.get_variables()]), storage_layout=local) for d in deltas]
    values = [specs[k].to_value(x) for x in news]

    def work(a, value, d):
        b = a.set_value(variables[k], value)
        c = b.update_storage_layout(layout)
        e = c.manifold_retract(d)
        da, dc = a.as_dict(), c.as_dict()
        return [da[v] for v in variables], b, [dc[v] for v in variables], e, e.get_value(variables[k]), e.get_stacked_value(type(variables[k]))

    def judge(out, i, label):
        a, b, c, e, value, stacked = out
        tol = ctx.tol(1e-9, 1e-4)
        changed = list(points[i])
        changed[k] = news[i]
        want = case.retract(changed, deltas[i])
        for j, (s, v) in enumerate(zip(specs, variables)):
            ctx.close(s.from_value(a[j]), points[i][j], f"{label}: original value", tol, tol, type=s.name)
            ctx.close(s.from_value(b.get_value(v)), changed[j], f"{label}: updated value", tol, tol, type=s.name)
            ctx.close(s.from_value(c[j]), changed[j], f"{label}: reordered value", tol, tol, type=s.name)
            ctx.close(s.canon(s.from_value(e.get_value(v))), s.canon(np.asarray(want[j], float)), f"{label}: retracted value", tol, tol, type=s.name)
        ctx.close(specs[k].canon(specs[k].from_value(value)), specs[k].canon(np.asarray(want[k], float)), f"{label}: value read inside", tol, tol)
        same = [j for j in range(n) if type(variables[j]) is type(variables[k])]
        rows = [v for v in e.get_variables() if type(v) is type(variables[k])]
        for pos, v in enumerate(rows):
            one = jax.tree_util.tree_map(lambda x: x[pos], stacked)
            s = specs[k]
            ctx.close(s.canon(s.from_value(one)), s.canon(np.asarray(want[index[v]], float)), f"{label}: stacked value", tol, tol)
        ctx.check(len(rows) == len(same), f"{label}: number of stacked values")
        ctx.count("assignment_operations")

    f = jax.jit(work)
    for i in range(B):
        judge(f(As[i], values[i], ds[i]), i, "jit")
    out = jax.vmap(work)(stack(rng, As), stack(rng, values), stack(rng, ds))
    for i in range(B):
        judge(jax.tree_util.tree_map(lambda x: x[i], out), i, "vmap")
    ctx.nontrivial(("assignments", tuple(types), tuple(order), tuple(target)))


def solver_of(ctx, name, linear, tight):
    S, L = jaxfg.solvers, jaxfg.sparse
    ls = {"cg": lambda: L.ConjugateGradientSolver(tolerance=ctx.tol(1e-10, 1e-6)),
          "inexact": lambda: L.InexactStepConjugateGradientSolver(inexact_step_eta=1e-2),
          "cholmod": lambda: L.CholmodSolver()}[linear]()
    if name == "fixed":
        return S.FixedIterationGaussNewtonSolver(verbose=False, linear_solver=ls, iterations=4, unroll=bool(ctx.rng.random() < 0.5))
    kw = dict(verbose=False, linear_solver=ls, max_iterations=40 if tight else 3, cost_tolerance=0.0, gradient_tolerance=1e-12, parameter_tolerance=1e-12)
    return {"gn": S.GaussNewtonSolver, "lm": S.LevenbergMarquardtSolver, "dogleg": S.DoglegSolver}[name](**kw)


def gen_solvable(ctx, max_cond, kinds=None, robust=False):
    rng = ctx.rng
    types = graphs.gen_types(rng, int(rng.integers(1, 3)), pool=["R1", "R2", "R3", "SE2", "SO3", "VecA", "Affine"] if ctx.x64 and not robust else ["R1", "R2", "R3", "VecA"] if robust else zoo.ARRAY_NAMES, max_count=2)
    truth = [zoo.SPECS[t].rand(rng, 0.6) for t in types]
    noise = ["gauss", "diag", "diagcov", "gausscov"] + (["huber:gauss", "huber:diagcov"] * 3 if robust else [])
    spread = 1.0 if robust else 0.02
    kinds = kinds or ["linear", "any", "prior", "between", "poselandmark"]
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 3)), per_template=3, noise_kinds=noise, kinds=kinds, truth=truth, meas_noise=spread)
    if not graphs.determine(rng, case, truth, max_cond, noise, truth, spread):
        raise Skip("conditioning")
    return case, truth


def run_solve(ctx):
    rng = ctx.rng
    i = ctx.case // 8
    name, linear = ["gn", "lm", "dogleg", "fixed"][i % 4], ["cg", "inexact"][(i // 4) % 2]
    case, truth = gen_solvable(ctx, 15.0)
    B = 3
    cases = siblings(rng, case, B, truth, 0.02)
    gs = [StackedFactorGraph.make(c.factors) for c in cases]
    order = list(rng.permutation(len(truth)))
    # Elements converge at different speeds.
    starts = [case.retract(truth, [h * rng.normal(size=s.ldim) for s in case.specs]) for h in (0.0, 0.05, 0.2)]
    As = [case.assignments(p, order) for p in starts]
    tight = bool(rng.random() < 0.5)
    solver = solver_of(ctx, name, linear, tight)
    ctx.note(graph=case.describe(), solver=name, linear=linear, tight=tight)
    alone = [case.read(g.solve(a, solver)) for g, a in zip(gs, As)]
    if not all(np.all(np.isfinite(x)) for v in alone for x in v):
        raise Skip("diverged")
    mode = ctx.pick(["both", "assignments"])
    if mode == "both":
        out = jax.vmap(lambda g, a: g.solve(a, solver))(stack(rng, gs), stack(rng, As))
    else:
        out = jax.vmap(lambda a: gs[0].solve(a, solver))(stack(rng, As))
        alone = [case.read(gs[0].solve(a, solver)) for a in As]
    for k in range(B):
        got = case.read(jax.tree_util.tree_map(lambda x: x[k], out))
        dev = graphs.canon_deviation(case, got, alone[k])
        # Inexact steps stop on a tolerance, which rounding may tip.
        tol = ctx.tol(1e-6, 1e-2) if linear == "cg" or tight else 1e-2
        if not case.tame(alone[k], 1e-3):
            tol = max(tol, 1e-3)  # jaxlie's logarithms carry noise here
        ctx.check(dev <= tol, f"element {k} of a batched solve ({name}, {linear}, over {mode}) differs from solving it alone by {dev:.3g}",
                  got=got, want=alone[k])
        ctx.count("vmap_solves")
    # Under jit, any linear solver.
    linear = ctx.pick(["cholmod", "cg"])
    solver = solver_of(ctx, name, linear, tight)
    f = jax.jit(lambda g, a: g.solve(a, solver))
    for k in range(2):
        got, want = case.read(f(gs[k], As[k])), case.read(gs[k].solve(As[k], solver))
        dev = graphs.canon_deviation(case, got, want)
        tol = ctx.tol(1e-6 if case.tame(want, 1e-3) else 1e-3, 1e-2)
        ctx.check(dev <= tol, f"solving inside jit ({name}, {linear}) differs by {dev:.3g}")
        ctx.count("jit_solves")
    ctx.nontrivial(("solve", name, linear, mode, case.signature()))


def directions(rng, tree):
    """A random direction in all floating-point leaves."""
    leaves, treedef = jax.tree_util.tree_flatten(tree)
    dirs = [rng.normal(size=np.shape(x)) if np.issubdtype(np.asarray(x).dtype, np.floating) else np.zeros(np.shape(x)) for x in leaves]
    return leaves, dirs, treedef


def with_leaves(treedef, leaves, dirs, h):
    return jax.tree_util.tree_unflatten(
        treedef, [jnp.asarray(x) + h * d if np.issubdtype(np.asarray(x).dtype, np.floating) else x for x, d in zip(leaves, dirs)])


def inner(grads, dirs):
    total = 0.0
    for g, d in zip(jax.tree_util.tree_leaves(grads), dirs):
        if np.asarray(g).dtype != jax.dtypes.float0:
            total += float(np.sum(np.asarray(g, float) * d))
    return total


def run_grad(ctx):
    rng = ctx.rng
    case, flats = gen(ctx, zoo.GAUSS_KINDS + ["custom", "huber:gauss", "huber:diagcov"])
    if any(r.kind == "analytic" for r in case.refs):
        # Blocks automatic differentiation on purpose.
        keep = [i for i, r in enumerate(case.refs) if r.kind != "analytic"]
        covered = {v for i in keep for v in case.refs[i].vidx}
        if len(covered) < len(case.variables):
            raise Skip("analytic factors only")
        case.factors, case.refs = [case.factors[i] for i in keep], [case.refs[i] for i in keep]
        case.templates = [case.templates[i] for i in keep]
    graph = StackedFactorGraph.make(case.factors)
    a = case.assignments(flats, list(rng.permutation(len(flats))))
    ctx.note(graph=case.describe())
    gauss_only = all(r.noise.kind in zoo.GAUSS_KINDS for r in case.refs)
    fns = {"cost": lambda g, a: g.compute_cost(a)[0]}
    if gauss_only:
        fns["nll"] = lambda g, a: g.compute_joint_nll(a)
    for label, fn in fns.items():
        value = float(fn(graph, a))
        gg, ga = jax.grad(fn, argnums=(0, 1), allow_int=True)(graph, a)
        for what, tree, grads, call in (("factor and noise parameters", graph, gg, lambda t: fn(t, a)), ("assignments", a, ga, lambda t: fn(graph, t))):
            leaves, dirs, treedef = directions(rng, tree)
            h = 1e-6
            hi, lo = (float(call(with_leaves(treedef, leaves, dirs, s * h))) for s in (1, -1))
            want = (hi - lo) / (2 * h)
            got = inner(grads, dirs)
            # A Huber threshold between the two evaluation points bends the difference.
            mid = abs(hi + lo - 2 * value) / h
            size = 1 + abs(want) + sum(float(np.abs(np.asarray(g, float)).max()) for g in jax.tree_util.tree_leaves(grads) if np.size(g) and np.asarray(g).dtype != jax.dtypes.float0)
            ctx.check(np.isfinite(got), f"gradient of the {label} with respect to {what} is not finite")
            ctx.check(abs(got - want) <= 1e-4 * size + 1e-7 * abs(value) + 2 * mid, f"gradient of the {label} with respect to {what}", got=got, want=want,
                      graph=case.describe())
            ctx.count("gradients")
    ctx.nontrivial(("grad", case.signature()))


def run_solve_grad(ctx):
    rng = ctx.rng
    robust = bool(ctx.case % 16 == 6)
    for _ in range(20):
        case, truth = gen_solvable(ctx, 8.0, kinds=["linear", "any"] if robust else ["linear", "any", "prior", "between"], robust=robust)
        start = case.retract(truth, [0.05 * rng.normal(size=s.ldim) for s in case.specs])
        weights = graphs.huber_weights(case, start)
        if case.tame(start) and weights is not None and (not robust or np.any(weights < 0.8)):
            break
    else:
        raise Skip("angles or threshold")
    graph = StackedFactorGraph.make(case.factors)
    a = case.assignments(start, list(rng.permutation(len(truth))))
    iterations = int(rng.integers(1, 4))

    def fixed(iterations, unroll):
        return jaxfg.solvers.FixedIterationGaussNewtonSolver(
            verbose=False, unroll=unroll, iterations=iterations, linear_solver=jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-13))

    solver = fixed(iterations, True)
    w = jnp.asarray(rng.normal(size=a.storage.shape))
    ctx.note(graph=case.describe(), iterations=iterations)

    def f(g, a, solver=solver):
        return jnp.sum(w * g.solve(a, solver).storage)

    # Close to the solution the logarithms are evaluated at small angles, where jaxlie is
    # not differentiated accurately.
    weighted = False
    for n in range(iterations + 1):
        out = case.read(graph.solve(a, fixed(n, True))) if n else start
        if not case.tame(out) or not all(np.all(np.isfinite(x)) for x in out):
            raise Skip("angles")
        weights = graphs.huber_weights(case, out)
        if weights is None:
            raise Skip("threshold")
        weighted = weighted or bool(np.any(weights < 0.9))
    gg, ga = jax.grad(f, argnums=(0, 1), allow_int=True)(graph, a)
    fj = jax.jit(f)
    loop = fixed(iterations, False)
    for what, tree, grads, call in (("factor and noise parameters", graph, gg, lambda t, g=fj: g(t, a)), ("initial assignments", a, ga, lambda t, g=fj: g(graph, t))):
        leaves, dirs, treedef = directions(rng, tree)
        h = 1e-5
        hi, lo = (float(call(with_leaves(treedef, leaves, dirs, s * h))) for s in (1, -1))
        want = (hi - lo) / (2 * h)
        got = inner(grads, dirs)
        size = 1 + abs(want) + sum(float(np.abs(np.asarray(g, float)).max()) for g in jax.tree_util.tree_leaves(grads) if np.size(g) and np.asarray(g).dtype != jax.dtypes.float0)
        ctx.check(abs(got - want) <= 2e-3 * size, f"gradient of an unrolled solution with respect to {what}", got=got, want=want, graph=case.describe())
        ctx.count("solution_gradients")
        if weighted:
            ctx.count("solution_gradients_weighted")
        # Forward mode also goes through the loop that is not unrolled.
        _, forward = jax.jvp(lambda t: call(with_leaves(treedef, leaves, dirs, t), lambda g, a: f(g, a, loop)), (0.0,), (1.0,))
        ctx.check(abs(float(forward) - want) <= 2e-3 * size, f"forward derivative of a solution with respect to {what}", got=float(forward), want=want, graph=case.describe())
        ctx.count("solution_derivatives")
    ctx.nontrivial(("solve grad", iterations, case.signature()))


def run_case(ctx: Ctx):
    k = ctx.case % 8
    if k in (0, 4):
        run_eval(ctx)
    elif k in (1, 5):
        run_assignments(ctx)
    elif k == 2:
        run_solve(ctx)
    elif not ctx.x64:
        run_eval(ctx) if k % 2 else run_assignments(ctx)
    elif k in (3, 7):
        run_grad(ctx)
    else:
        run_solve_grad(ctx)
