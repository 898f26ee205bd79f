"""Residual vector and cost of a graph against its factors taken one by one."""
import itertools

import numpy as np
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import big, graphs, zoo
from ..core import Ctx


def sample(ctx, case):
    """Single precision needs poses away from the identity, see GraphCase.tame."""
    return case.rand_flats(ctx.rng, 0.8) if ctx.x64 else case.tame_flats(ctx.rng, 0.8)


def compare(ctx, case, graph, flats, assignments, label):
    weight = max(1.0, max(np.abs(r.noise.W).max() for r in case.refs) / 10)
    rtol, atol = ctx.tol(1e-9, 3e-4), ctx.tol(1e-9, 3e-5) * weight
    want = np.sort(case.ref_residual(flats))
    r = np.asarray(graph.compute_whitened_residual_vector(assignments), float)
    ctx.check(r.ndim == 1, f"{label}: residual is not a vector", shape=r.shape)
    ctx.close(np.sort(r), want, f"{label}: graph residual differs from the residuals of its factors",
              rtol, atol, graph=case.describe())
    cost, r2 = graph.compute_cost(assignments)
    cost = float(cost)
    ctx.close(cost, want @ want, f"{label}: cost is not the sum of squared factor residuals", ctx.tol(1e-9, 2e-3), atol * weight,
              graph=case.describe())
    ctx.close(r2, r, f"{label}: residual returned with the cost differs", ctx.tol(1e-12, 1e-5), ctx.tol(1e-12, 1e-6) * weight)
    ctx.count("residual_entries", r.size)


def big_case(ctx):
    g = big.Big(ctx.rng)
    graph = StackedFactorGraph.make(g.factors, use_onp=bool(ctx.rng.random() < 0.7))
    x = g.rand(ctx.rng)
    want = np.sort(g.residual(x))
    cost, r = graph.compute_cost(g.assignments(x))
    ctx.close(np.sort(np.asarray(r, float)), want, "large graph: residual", ctx.tol(1e-9, 3e-4), ctx.tol(1e-9, 3e-5))
    ctx.close(float(cost), want @ want, "large graph: cost", ctx.tol(1e-9, 2e-3), 1e-9)
    # Few long vectors, stored in another order than the graph's.
    rng = ctx.rng
    vs = [jaxfg.core.RealVectorVariable[12000]() for _ in range(6)]
    A, x = rng.normal(size=(8, 12000)) / 100, rng.normal(size=(6, 12000))
    use = list(range(6)) + [0, 5]
    graph = StackedFactorGraph.make([zoo.LinearFactor((vs[i],), jaxfg.noises.DiagonalGaussian(np.ones(1)), (A[k : k + 1],), np.zeros(1))
                                     for k, i in enumerate(use)])
    a = jaxfg.core.VariableAssignments.make_from_dict({vs[i]: x[i] for i in rng.permutation(6)})
    ctx.close(np.asarray(graph.compute_whitened_residual_vector(a), float), np.array([A[k] @ x[i] for k, i in enumerate(use)]),
              "graph over long vectors: residual", ctx.tol(1e-9, 3e-4), ctx.tol(1e-9, 1e-4))
    ctx.count("large_graphs")
    ctx.nontrivial(("large", ctx.case))


def undefined_residuals(ctx, case, graph):
    """A residual that is undefined makes the cost undefined, and nothing else."""
    rng = ctx.rng
    flats = sample(ctx, case) or case.rand_flats(rng, 0.8)
    i = int(rng.integers(len(flats)))
    flats[i] = flats[i] * np.nan
    cost, r = graph.compute_cost(case.assignments(flats))
    want = [x.whitened(flats) for x in case.refs if i not in x.vidx]
    want = np.sort(np.concatenate(want)) if want else np.zeros(0)
    ctx.check(np.isnan(float(cost)), "cost is a number although a residual is undefined", cost=float(cost), graph=case.describe())
    got = np.asarray(r, float)
    got = np.sort(got[np.isfinite(got)])
    if len(got) == len(want) and ctx.x64:
        ctx.close(got, want, "residuals of factors away from an undefined value", ctx.tol(1e-9, 3e-4),
                  ctx.tol(1e-9, 3e-5) * max(1.0, max(np.abs(r.noise.W).max() for r in case.refs) / 10))
    ctx.count("undefined")


def run_case(ctx: Ctx):
    rng = ctx.rng
    if ctx.case % 30 == 29 or (not ctx.x64 and ctx.case == 0):
        return big_case(ctx)
    kind = ctx.case % 6
    noise = zoo.GAUSS_KINDS + ["custom", "huber"]
    if kind == 4:
        # Many factors and variables of few types.
        types = graphs.gen_types(rng, int(rng.integers(1, 3)), max_count=30)
        case = graphs.gen_graph(rng, types, n_templates=3, per_template=40, noise_kinds=noise)
    elif kind == 5:
        # Look-alikes: same shapes, different classes, static fields, noise or types.
        types = ["R3", "VecA", "VecB", "R3", "VecA", "VecB", "SE2", "SE2Sub", "SE2"]
        rng.shuffle(types)
        case = lookalikes(rng, types)
    elif kind == 3 and ctx.x64:
        case = graphs.gen_graph(rng, noise_kinds=noise, noise_scale=graphs.spread_scale)
        ctx.count("spread")
    else:
        case = graphs.gen_graph(rng, noise_kinds=noise)
    use_onp = bool(rng.random() < 0.7)
    graph = StackedFactorGraph.make(case.factors, use_onp=use_onp)
    ctx.note(graph=case.describe(), use_onp=use_onp)
    ctx.check(graph.residual_dim == sum(r.dim for r in case.refs), "residual dimension is not the sum over factors")
    ctx.check(set(graph.get_variables()) == set(case.variables) and len(graph.get_variables()) == len(case.variables),
              "graph variables are not the variables of its factors")
    n = len(case.variables)
    for k in range(2):
        flats = sample(ctx, case)
        if flats is None:
            return
        order = list(range(n)) if k == 0 else list(rng.permutation(n))
        compare(ctx, case, graph, flats, case.assignments(flats, order), f"evaluation {k}")
    # Factor by factor through the public single-factor path.
    a = case.assignments(flats)
    for f, r in list(zip(case.factors, case.refs))[:12]:
        got = f.compute_residual_vector(f.get_variable_values_from_assignments(a))
        ctx.close(got, r.residual(flats), "residual of a single factor", ctx.tol(1e-9, 3e-4), ctx.tol(1e-9, 3e-5), kind=r.kind)
        ctx.close(f.noise_model.whiten_residual_vector(got), r.whitened(flats), "whitened residual of a single factor",
                  ctx.tol(1e-9, 3e-4), ctx.tol(1e-9, 3e-5) * max(1.0, np.abs(r.noise.W).max() / 10), kind=r.kind)
    # Another order of the same factors; factors given as a one-shot iterable.
    perm = list(rng.permutation(len(case.factors)))
    other = graphs.GraphCase(case.types, case.variables, [case.factors[i] for i in perm], [case.refs[i] for i in perm], [])
    graph2 = StackedFactorGraph.make(iter(other.factors), use_onp=not use_onp)
    flats = sample(ctx, case) or flats
    compare(ctx, other, graph2, flats, other.assignments(flats, list(rng.permutation(n))), "permuted factors")
    if len(case.factors) >= 2:
        # The same factor object listed twice counts twice.
        dup = graphs.GraphCase(case.types, case.variables, case.factors + [case.factors[0]], case.refs + [case.refs[0]], [])
        if ctx.case % 3 == 0:
            compare(ctx, dup, StackedFactorGraph.make(dup.factors), flats, dup.assignments(flats), "repeated factor")
        ctx.nontrivial(case.signature())
    undefined_residuals(ctx, case, graph)
    ctx.sample(case.describe())


def lookalikes(rng, types):
    variables = [zoo.SPECS[t].cls() for t in types]
    vecs = [i for i, t in enumerate(types) if t in ("R3", "VecA", "VecB")]
    poses = [i for i, t in enumerate(types) if t in ("SE2", "SE2Sub")]
    plan = []
    for _ in range(2):
        for noise in rng.choice(["gauss", "gausscov", "diag", "diagcov", "custom", "huber"], 3, replace=False):
            i, j = rng.choice(vecs, 2)
            kind = ["linear", "lineartwin", "any", "any"][rng.integers(4)]
            static = (int(rng.integers(2, 4)), ["tanh", "sin", "none"][rng.integers(3)]) if kind == "any" else ()
            plan.append((zoo.Template(kind, (types[i], types[j]), 3, noise, static), [int(i), int(j)]))
            p = int(rng.choice(poses))
            plan.append((zoo.Template("prior", (types[p],), 3, noise), [p]))
            same = [q for q in poses if types[q] == types[p]]
            plan.append((zoo.Template("between", (types[p], types[p]), 3, noise), [p, int(rng.choice(same))]))
    used = {i for _, v in plan for i in v}
    for i, t in enumerate(types):
        if i not in used:
            plan.append((zoo.Template("any", (t,), 3, "gauss", (2, "sin")), [i]))
    plan = [plan[i] for i in rng.permutation(len(plan))]
    fr = [zoo.instantiate(rng, t, variables, v) for t, v in plan]
    return graphs.GraphCase(types, variables, [f for f, _ in fr], [r for _, r in fr], [t for t, _ in plan])
