"""Graph Jacobian against numeric differentiation of the reference residual."""
import numpy as np
import scipy.sparse
import jaxfg
from jaxfg.core import StackedFactorGraph, VariableAssignments

from .. import big, graphs, zoo
from ..core import Ctx


def compare(ctx, case, graph, flats, assignments, label):
    r = graph.compute_whitened_residual_vector(assignments)
    A = graph.compute_whitened_residual_jacobian(assignments, r)
    ctx.check(tuple(A.shape) == (sum(x.dim for x in case.refs), case.ldim),
              f"{label}: Jacobian shape", shape=A.shape, want=(sum(x.dim for x in case.refs), case.ldim))
    rows, cols = np.asarray(A.coords.rows), np.asarray(A.coords.cols)
    ctx.check(rows.shape == cols.shape == np.shape(A.values), f"{label}: coordinate and value counts differ")
    ctx.check(rows.min() >= 0 and rows.max() < A.shape[0] and cols.min() >= 0 and cols.max() < A.shape[1],
              f"{label}: Jacobian coordinates out of range")
    columns = case.columns(graph.local_storage_layout)
    J = graphs.dense_from_coo(A)
    want = np.column_stack([case.ref_residual(flats), case.ref_jacobian(flats, columns)])
    got = np.column_stack([np.asarray(r, float), J])
    scale = 1 + np.abs(want).max()
    dev = graphs.match_rows(got, want)
    ctx.check(dev <= ctx.tol(2e-6, 2e-3) * scale,
              f"{label}: Jacobian is not the derivative of the whitened residual (row-matched deviation {dev:.3g}, scale {scale:.3g})",
              graph=case.describe())
    ctx.count("jacobian_entries", J.size)


def big_case(ctx):
    g = big.Big(ctx.rng)
    graph = StackedFactorGraph.make(g.factors)
    x = g.rand(ctx.rng)
    a = g.assignments(x)
    r = graph.compute_whitened_residual_vector(a)
    A = graph.compute_whitened_residual_jacobian(a, r)
    got = np.asarray(r, float)
    want = g.residual(x)
    # Rows are recognized by their residual.
    row_of = np.empty(len(want), int)
    row_of[np.argsort(want)] = np.argsort(got)
    ctx.close(got[row_of], want, "large graph: residual", 1e-9, 1e-9)
    start = np.array([graph.local_storage_layout.index_from_variable[v] for v in g.variables])
    k = np.repeat(np.arange(len(want)), big.DIM)
    off = np.tile(np.arange(big.DIM), len(want))
    J = scipy.sparse.coo_matrix((np.concatenate([(g.w[:, None] * g.A[:, c]).ravel() for c in (0, 1)]),
                                 (np.tile(row_of[k], 2), np.concatenate([start[g.i][k] + off, start[g.j][k] + off]))),
                                shape=A.shape).tocsr()
    G = scipy.sparse.coo_matrix((np.asarray(A.values, float), (np.asarray(A.coords.rows), np.asarray(A.coords.cols))), shape=A.shape).tocsr()
    ctx.check(abs(G - J).max() < 1e-8, "large graph: Jacobian", deviation=abs(G - J).max())
    ctx.count("large_graphs")
    ctx.nontrivial(("large", ctx.case))


def magnitudes(ctx):
    """Derivatives of all magnitudes keep their relative precision."""
    rng = ctx.rng
    types = [ctx.pick(["R1", "R2", "R3"]) for _ in range(int(rng.integers(2, 5)))]
    variables = [zoo.SPECS[t].cls() for t in types]
    top = ctx.tol(15, 8)
    factors, want = [], []
    for k in range(int(rng.integers(3, 9))):
        vidx = rng.choice(len(types), size=2, replace=False)
        Ms = [rng.uniform(0.5, 2.0, (1, zoo.SPECS[types[i]].pdim)) * 10 ** rng.uniform(-top, top) for i in vidx]
        w = float(10 ** rng.uniform(-4, 4))
        b = (k + 1) / w  # Rows are recognized by their residual.
        factors.append(zoo.LinearFactor(variables=tuple(variables[i] for i in vidx), noise_model=jaxfg.noises.DiagonalGaussian(np.array([w])),
                                        Ms=tuple(Ms), b=np.array([b])))
        want.append({int(i): w * M[0] for i, M in zip(vidx, Ms)})
    used = sorted({i for row in want for i in row})
    graph = StackedFactorGraph.make([factors[i] for i in rng.permutation(len(factors))])
    a = VariableAssignments.make_from_dict({variables[i]: np.zeros(zoo.SPECS[types[i]].pdim) for i in used})
    r = graph.compute_whitened_residual_vector(a)
    J = graphs.dense_from_coo(graph.compute_whitened_residual_jacobian(a, r))
    row = np.argsort(np.abs(np.asarray(r, float)))
    start = graph.local_storage_layout.index_from_variable
    for k, entries in enumerate(want):
        got, expected = J[row[k]], np.zeros(J.shape[1])
        for i, e in entries.items():
            expected[start[variables[i]] : start[variables[i]] + len(e)] = e
        dev = np.abs(got - expected) / np.where(expected == 0, 1.0, np.abs(expected))
        ctx.check(dev.max() < ctx.tol(1e-9, 1e-4), "a very large or very small derivative", got=got, want=expected)
        ctx.count("magnitudes", len(entries))
    ctx.nontrivial(("magnitudes", ctx.case))


def turned(rng, case):
    flats = [np.array(x) for x in case.rand_flats(rng, 0.8)]
    for s, x in zip(case.specs, flats):
        if s.group is not None:
            n = 2 if s.group.name in ("SO2", "SE2") else 4
            q = rng.normal(size=n)
            q[0] -= float(rng.choice([0.0, 0.0, 3.0, 10.0]))
            x[:n] = q / np.linalg.norm(q)
    return flats


def run_case(ctx: Ctx):
    rng = ctx.rng
    magnitudes(ctx)
    if ctx.x64 and ctx.case % 50 == 49:
        return big_case(ctx)
    noise = zoo.GAUSS_KINDS + ["custom"]
    kind = ctx.case % 5
    kinds = None
    if not ctx.x64:
        # jaxlie's logarithms have inaccurate single-precision derivatives close to the
        # identity, so the built-in factors are differentiated in double precision only.
        kinds = [k for k in zoo.KINDS if k not in ("prior", "between")]
        kind = 0 if kind == 4 else kind
    if kind == 3:
        # Every manifold at once through the generic factor, plus repeats.
        types = [graphs.ALL_TYPES[i] for i in rng.permutation(len(graphs.ALL_TYPES))[:7]]
        case = graphs.gen_graph(rng, types, n_templates=4, per_template=3, noise_kinds=noise, kinds=["any"], max_arity=4)
    elif kind == 4:
        # Lie groups with the built-in factors.
        types = graphs.gen_types(rng, int(rng.integers(1, 4)), pool=zoo.LIE_NAMES + ["SE2Sub"])
        case = graphs.gen_graph(rng, types, noise_kinds=noise, kinds=["prior", "between"], repeat_ok=bool(rng.random() < 0.3))
    else:
        spread = ctx.x64 and ctx.case % 10 == 2
        case = graphs.gen_graph(rng, n_templates=int(rng.integers(2, 6)), noise_kinds=noise, kinds=kinds,
                                noise_scale=graphs.spread_scale if spread else 1.0)
        ctx.count("graphs_with_spread_weights", spread)
    graph = StackedFactorGraph.make(case.factors, use_onp=bool(rng.random() < 0.7))
    ctx.note(graph=case.describe())
    n = len(case.variables)
    for k in range(3):
        # Small scales approach the identity, where series expansions take over.
        flats = case.rand_flats(rng, [0.8, 1.5, 1e-3][k])
        for _ in range(30):
            if case.tame(flats):
                break
            flats = case.rand_flats(rng, 0.8)
        else:
            continue
        order = list(range(n)) if k == 0 else list(rng.permutation(n))
        compare(ctx, case, graph, flats, case.assignments(flats, order), f"evaluation {k}")
    if not any(r.kind in ("prior", "between") for r in case.refs) and any(s.group for s in case.specs):
        # Without logarithms, any orientation in any of its representations.
        flats = turned(rng, case)
        compare(ctx, case, graph, flats, case.assignments(flats), "turned far")
        ctx.count("turned")
    for f, r in list(zip(case.factors, case.refs))[:4]:
        js = f.compute_residual_jacobians(f.get_variable_values_from_assignments(case.assignments(flats)))
        ctx.check(len(js) == len(r.vidx), "one Jacobian block per variable", kind=r.kind)
        for j, i in zip(js, r.vidx):
            ctx.check(np.shape(j) == (r.dim, case.specs[i].ldim), "shape of a Jacobian block", kind=r.kind)
    if any(len(r.vidx) > 1 for r in case.refs) or len(set(case.types)) > 1:
        ctx.nontrivial(case.signature())
    if any(len(set(r.vidx)) < len(r.vidx) for r in case.refs):
        ctx.count("graphs_with_repeated_variables")
    if any(s.ldim != s.pdim for s in case.specs):
        ctx.count("graphs_with_manifolds")
    ctx.sample(case.describe())
