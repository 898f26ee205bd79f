"""Purity of all computations, and truthfulness of progress output."""
import contextlib
import io
import os
import re
import sys
import tempfile

import numpy as np
import scipy.sparse
import jax
import jax_dataclasses as jdc
from jax import numpy as jnp
from jax.experimental import host_callback as hcb
import jaxfg
from jaxfg.core import StackedFactorGraph, StorageLayout, VariableAssignments
from jaxfg.sparse import SparseCooMatrix

from .. import graphs, probes, trace, zoo
from ..core import Ctx, Skip

S, L = jaxfg.solvers, jaxfg.sparse


def snapshot(tree):
    leaves, treedef = jax.tree_util.tree_flatten(tree)
    return treedef, [(type(x), np.array(x), getattr(x, "dtype", None)) for x in leaves]


def same_snapshot(a, b):
    return a[0] == b[0] and len(a[1]) == len(b[1]) and all(
        x[0] == y[0] and x[2] == y[2] and x[1].dtype == y[1].dtype and np.array_equal(x[1], y[1], equal_nan=x[1].dtype.kind == "f")
        for x, y in zip(a[1], b[1]))


def same_result(a, b):
    la, ta = jax.tree_util.tree_flatten(a)
    lb, tb = jax.tree_util.tree_flatten(b)
    return ta == tb and all(np.array_equal(np.asarray(x), np.asarray(y), equal_nan=np.asarray(x).dtype.kind == "f") for x, y in zip(la, lb))


@contextlib.contextmanager
def captured():
    """Everything written to standard output, through Python or underneath it."""
    out = io.StringIO()
    box = {}
    with tempfile.TemporaryFile() as f:
        sys.stdout.flush()
        saved = os.dup(1)
        os.dup2(f.fileno(), 1)
        try:
            with contextlib.redirect_stdout(out):
                yield box
                hcb.barrier_wait()
                jax.effects_barrier()
        finally:
            sys.stdout.flush()
            os.dup2(saved, 1)
            os.close(saved)
        f.seek(0)
        box["text"] = out.getvalue() + f.read().decode(errors="replace")


def freeze(tree):
    """Makes numpy arrays read-only, so that writes to them fail on the spot."""
    for x in jax.tree_util.tree_leaves(tree):
        if isinstance(x, np.ndarray):
            x.setflags(write=False)


# -------------------------------------------------------------------------- purity


def run_pure(ctx):
    rng = ctx.rng
    noise = zoo.GAUSS_KINDS + ["custom"]
    gaussian = bool(rng.random() < 0.6)
    noise = zoo.GAUSS_KINDS if gaussian else zoo.GAUSS_KINDS + ["custom", "huber"]
    types = graphs.companions(rng, graphs.gen_types(rng, int(rng.integers(1, 3)), max_count=2))
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 4)), per_template=3, noise_kinds=noise)
    flats = case.rand_flats(rng, 0.6)
    n = len(flats)
    if not graphs.determine(rng, case, flats, 200.0, noise):
        raise Skip("conditioning")
    ctx.note(graph=case.describe())
    factors = [case.factors[i] for i in rng.permutation(len(case.factors))]
    listed = list(factors)
    if rng.random() < 0.5:
        freeze(factors)
    values = {case.variables[i]: case.specs[i].to_value(flats[i]) for i in rng.permutation(n)}
    if rng.random() < 0.5:
        values = {v: jax.tree_util.tree_map(np.array, x) for v, x in values.items()}
    graph = StackedFactorGraph.make(factors, use_onp=bool(rng.random() < 0.7))
    ctx.check(len(factors) == len(listed) and all(p is q for p, q in zip(factors, listed)), "building a graph: modifies the list of factors")
    given = list(values.items())
    a = VariableAssignments.make_from_dict(values)
    ctx.check(len(values) == len(given) and all(p is q for p, q in zip(values, [k for k, _ in given])), "assignments from a dictionary: modifies the dictionary")
    entries = int(rng.integers(1, 12))
    owned = scipy.sparse.coo_matrix((rng.normal(size=entries), (rng.integers(3, size=entries), rng.integers(4, size=entries))), shape=(3, 4))
    square = scipy.sparse.coo_matrix((rng.integers(1, 5, size=3), ([2, 0, 0], [0, 1, 1])), shape=(3, 3))
    listed_variables = list(case.variables)
    if rng.random() < 0.3:
        a = jax.tree_util.tree_map(np.array, a)  # Storage may be a numpy array
    r = graph.compute_whitened_residual_vector(a)
    A = graph.compute_whitened_residual_jacobian(a, r)
    d = VariableAssignments(storage=jnp.asarray(rng.normal(size=case.ldim) * 0.1), storage_layout=graph.local_storage_layout)
    other = StorageLayout.make([case.variables[i] for i in rng.permutation(n)], local=False)
    k = int(rng.integers(n))
    fresh = case.specs[k].to_value(case.specs[k].rand(rng))
    partial = {case.variables[k]: fresh}
    cov = np.diag(rng.uniform(0.5, 2, 3))
    var = rng.uniform(0.5, 2, 3)
    x, y = rng.normal(size=case.ldim), rng.normal(size=A.shape[0])
    linear = ctx.pick([L.CholmodSolver(), L.ConjugateGradientSolver(), L.InexactStepConjugateGradientSolver()])
    common = dict(verbose=False, max_iterations=3, linear_solver=linear)
    solver = ctx.pick([S.GaussNewtonSolver(**common), S.LevenbergMarquardtSolver(**common), S.DoglegSolver(**common),
                       S.FixedIterationGaussNewtonSolver(verbose=False, iterations=2, unroll=bool(rng.random() < 0.5), linear_solver=linear)])
    sc = None
    if not any(f.noise_model.__class__.__name__ == "HuberWrapper" for f in factors):
        sc = jaxfg.experimental.SparseCovariance.make(graph, a)
    ops = {
        "building a graph": lambda: StackedFactorGraph.make(factors),
        "building a graph from an iterator": lambda: StackedFactorGraph.make(iter(factors)),
        "residual": lambda: graph.compute_whitened_residual_vector(a),
        "cost": lambda: graph.compute_cost(a),
        "jacobian": lambda: graph.compute_whitened_residual_jacobian(a, r),
        "solve": lambda: graph.solve(a, solver),
        "linear solve": lambda: linear.solve_subproblem(A=A, ATb=-(A.T @ r), lambd=0.1, iteration=0),
        "assignments from a dictionary": lambda: VariableAssignments.make_from_dict(values),
        "assignments from a partial dictionary": lambda: VariableAssignments.make_from_partial_dict(list(case.variables), partial),
        "defaults": lambda: VariableAssignments.make_from_defaults(case.variables),
        "reordering": lambda: a.update_storage_layout(other),
        "retraction": lambda: a.manifold_retract(d),
        "setting a value": lambda: a.set_value(case.variables[k], fresh),
        "reading": lambda: [a.get_value(v) for v in case.variables],
        "reading stacked": lambda: [a.get_stacked_value(t) for t in dict.fromkeys(map(type, case.variables))],
        "dictionary": lambda: list(a.as_dict().values()),
        "printing": lambda: len(repr(a)) and 0,
        "full noise model": lambda: jaxfg.noises.Gaussian.make_from_covariance(cov),
        "diagonal noise model": lambda: jaxfg.noises.DiagonalGaussian.make_from_covariance(var),
        "matrix product": lambda: A @ x,
        "transposed product": lambda: A.T @ y,
        "dense matrix": lambda: A.as_dense(),
        "scipy matrix": lambda: A.as_scipy_coo_matrix().toarray(),
        "matrix from scipy": lambda: SparseCooMatrix.from_scipy_coo_matrix(owned),
        "matrix from scipy integers": lambda: SparseCooMatrix.from_scipy_coo_matrix(square).as_dense(),
        "storage layout": lambda: len(StorageLayout.make(case.variables).index_from_variable),
        "local storage layout": lambda: len(StorageLayout.make(case.variables, local=True).index_from_variable),
        "anonymous factor": lambda: factors[0].anonymize_variables(),
        "residual of a factor": lambda: factors[0].compute_residual_vector(factors[0].get_variable_values_from_assignments(a)),
        "jacobian of a factor": lambda: factors[0].compute_residual_jacobians(factors[0].get_variable_values_from_assignments(a)),
    }
    if gaussian:
        ops["likelihood"] = lambda: graph.compute_joint_nll(a)
    if sc is not None:
        ops["covariance"] = lambda: jaxfg.experimental.SparseCovariance.make(graph, a).as_dense()
        ops["dense covariance"] = lambda: sc.as_dense(use_inverse=bool(ctx.case % 2))
        ops["marginal"] = lambda: sc.compute_marginal(*case.variables[: k + 1])
    inputs = lambda: (factors, [f.variables for f in factors] and 0, graph, a, d, solver, linear, list(values.values()), fresh, A, r, cov, var, x, y,
                      [(z.data, z.row, z.col) for z in (owned, square)])
    keys = list(values)
    before = snapshot(inputs())
    layouts = (graph.storage_layout, graph.local_storage_layout, a.storage_layout, other, d.storage_layout)
    hashes = [hash(l) for l in layouts]
    contents = [list(l.index_from_variable.items()) for l in layouts]
    names = list(ops)
    first = {}
    order = [names[i] for i in rng.permutation(len(names))]
    order += [ctx.pick(names) for _ in range(20)]
    for name in order:
        with captured() as box:
            out = ops[name]()
            out = jax.tree_util.tree_map(np.array, out)
        ctx.check(box["text"] == "", f"{name}: prints something", text=box["text"][:300])
        now = snapshot(inputs())
        ctx.check(same_snapshot(before, now), f"{name}: modifies its inputs")
        ctx.check(list(values) == keys and len(partial) == 1 and partial[case.variables[k]] is fresh and all(p is q for p, q in zip(factors, listed)) and len(factors) == len(listed)
                  and len(case.variables) == len(listed_variables) and all(p is q for p, q in zip(case.variables, listed_variables)),
                  f"{name}: modifies a container passed in")
        ctx.check([hash(l) for l in layouts] == hashes and [list(l.index_from_variable.items()) for l in layouts] == contents, f"{name}: modifies a storage layout")
        if name in first:
            ctx.check(same_result(first[name], out), f"{name}: a repeated call gives another result")
            ctx.count("repeats")
        else:
            first[name] = out
        ctx.count("operations")
    ctx.nontrivial(("pure", type(solver).__name__, type(linear).__name__, case.signature()))
    ctx.sample(dict(kind="purity", solver=type(solver).__name__, **case.describe()))


# ------------------------------------------------------------------------ progress

NUMBER = r"([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf))"
STEP = re.compile(r"[Ii]teration\s*#?\s*(\d+)(?:\s*/\s*(\d+))?\D*?cost\s*[=:]\s*" + NUMBER)
END = re.compile(r"[Tt]erminated\b\D*(\d+)\D*?cost\s*[=:]\s*" + NUMBER)


def read_progress(ctx, text):
    steps, end = [], []
    for line in text.splitlines():
        m = END.search(line)
        if m:
            end.append((int(m.group(1)), float(m.group(2)), len(steps)))
            continue
        m = STEP.search(line)
        if m:
            steps.append((int(m.group(1)), m.group(2), float(m.group(3))))
    if not steps and not end and text.strip():
        raise Skip("progress lines are worded differently")
    return steps, end


def close_cost(a, b, scale):
    if not np.isfinite(b):
        return True  # The reference may fail differently
    return abs(a - b) <= 1e-6 * abs(b) + 1e-10 * scale


def run_progress(ctx):
    rng = ctx.rng
    i = ctx.case // 2
    family = trace.FAMILIES[i % len(trace.FAMILIES)]
    name = ["gn", "lm", "dogleg", "fixed"][(i + i // len(trace.FAMILIES)) % 4]
    case = trace.gen_problem(rng, family)
    graph = StackedFactorGraph.make(case.factors)
    flats = trace.start_point(rng, case, family)
    order = list(rng.permutation(len(flats)))
    a0 = case.assignments(flats, order)
    scales = {int(k): float(rng.choice([3.0, 8.0, 0.3])) for k in rng.permutation(8)[:3]} if name in ("lm", "dogleg") else {}
    policy = probes.direct_policy(eps=1e-8, scales=scales)
    K = int(rng.integers(1, 10))
    ctx.note(graph=case.describe(), solver=name, family=family, limit=K, scales=scales)
    if name == "fixed":
        K = int(rng.integers(1, 4))
        mk = lambda k, verbose: S.FixedIterationGaussNewtonSolver(
            verbose=verbose, linear_solver=probes.HostSolver(), iterations=k, unroll=bool(ctx.case % 4 < 2))
        its = [flats]
        with captured() as box:
            for k in range(1, K + 1):
                its.append(trace.run_solver(case, graph, a0, mk(k, False), policy, k).flats)
        performed = K
    else:
        cfg = dict(cost_tolerance=float(rng.choice([0.0, 1e-5, 1e-2])), gradient_tolerance=1e-9, parameter_tolerance=float(rng.choice([1e-9, 1e-3])))
        mk = lambda k, verbose: trace.SOLVERS[name](verbose=verbose, linear_solver=probes.HostSolver(), max_iterations=k, **cfg)
        with captured() as box:
            t = trace.collect(ctx, case, graph, flats, order, name, cfg, policy, K)
        its, performed = t.iterates, t.n
    ctx.check(box["text"] == "", "output although progress printing is off", text=box["text"][:500])
    ctx.count("silent_runs")
    costs = [case.ref_cost(f) for f in its]
    if not np.all(np.isfinite(costs)):
        raise Skip("costs are not finite")
    with captured() as box:
        loud = trace.run_solver(case, graph, a0, mk(K, True), policy, K)
    if loud.overrun:
        ctx.fail("more iterations with progress printing on")
    text = box["text"]
    ctx.check(len(loud.subproblems) == performed, "progress printing changes the number of iterations", on=len(loud.subproblems), off=performed)
    dev = graphs.canon_deviation(case, loud.flats, its[performed])
    ctx.check(dev <= 1e-6, f"progress printing changes the result by {dev:.3g}")
    steps, end = read_progress(ctx, text)
    info = dict(text=text[:2000], solver=name, performed=performed, costs=costs)
    ctx.check([s[0] for s in steps] == list(range(performed)), "iterations are not reported once each in order", **info)
    for i, limit, cost in steps:
        ctx.check(limit is None or int(limit) == K, "reported iteration limit", limit=K, **info)
        ctx.check(close_cost(cost, costs[i], costs[0]), f"reported cost of iteration {i}", want=costs[i], **info)
        ctx.count("reported_iterations")
    ctx.check(len(end) == 1 and end[0][2] == len(steps), "one final line after the iterations", **info)
    ctx.check(end[0][0] == performed, "reported number of iterations", **info)
    ctx.check(close_cost(end[0][1], costs[performed], costs[0]), "reported final cost", want=costs[performed], **info)
    # Once more: the report of a second run must not depend on the first.
    with captured() as box:
        trace.run_solver(case, graph, a0, mk(K, True), policy, K)
    ctx.check(box["text"] == text, "a second run reports something else", again=box["text"][:1000], **info)
    ctx.count(f"reports_{name}")
    ctx.nontrivial(("progress", family, name, K, performed, round(costs[0], 6)))


def run_case(ctx: Ctx):
    if ctx.case % 2 == 0 and ctx.x64:
        run_progress(ctx)
    else:
        run_pure(ctx)
