"""Independence of earlier and concurrent work."""
import sys
import threading
import numpy as np
import jax
import jax_dataclasses as jdc
from jax import numpy as jnp
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import graphs, sp, zoo
from ..core import Ctx, Skip

# ------------------------------------------------------------- direct solver sequences


def rows_to_coo(rng, lengths, indices):
    rows = np.repeat(np.arange(len(lengths)), lengths)
    return rows, np.asarray(indices)


def colliding_patterns(rng, large=False):
    """Patterns that agree in size, entry count and part of their index structure. The
    large ones are factorized in blocks that depend on the analysis of the pattern."""
    m, n = int(rng.integers(6, 14)), int(rng.integers(3, 7))
    lengths = rng.integers(1, n + 1, size=m)
    if large:
        n = int(rng.integers(90, 220))
        m = n + int(rng.integers(40, 100))
        lengths = rng.integers(2, 7, size=m)
    rowsets = [np.sort(rng.choice(n, size=k, replace=False)) for k in lengths]
    indices = np.concatenate(rowsets)
    out = [(m, n, *rows_to_coo(rng, lengths, indices))]
    # Same entries split differently over rows, where the split keeps rows increasing.
    breaks = [0]
    for i in range(1, len(indices)):
        if indices[i] <= indices[i - 1] or rng.random() < (0.05 if large else 0.3):
            breaks.append(i)
    other = np.diff(breaks + [len(indices)])
    if len(other) <= m:
        other = np.concatenate([other, np.zeros(m - len(other), int)])
        out.append((m, n, *rows_to_coo(rng, other, indices)))
    if large:
        # Increasing runs cut into two rows each, at one place or another.
        runs = [np.sort(rng.choice(n, size=int(rng.integers(6, 11)), replace=False)) for _ in range(m // 2)]
        for _ in range(2):
            cuts = [int(rng.integers(2, len(run) - 1)) for run in runs]
            split = np.array([k for run, cut in zip(runs, cuts) for k in (cut, len(run) - cut)] + [0] * (m % 2))
            out.append((m, n, *rows_to_coo(rng, split, np.concatenate(runs))))
    # Same row lengths, other columns.
    out.append((m, n, *rows_to_coo(rng, lengths, np.concatenate([np.sort(rng.choice(n, size=k, replace=False)) for k in lengths]))))
    # Rows in another order.
    p = rng.permutation(m)
    out.append((m, n, *rows_to_coo(rng, lengths[p], np.concatenate([rowsets[i] for i in p]))))
    # Same entries, one more parameter or residual.
    out.append((m, n + 1, *rows_to_coo(rng, lengths, indices)))
    out.append((m + 1, n, *rows_to_coo(rng, np.append(lengths, 0), indices)))
    # Same row lengths and the same columns overall: entries of two rows exchanged.
    swapped = [list(r) for r in rowsets]
    for _ in range(4 * m):
        i, j = rng.integers(m, size=2)
        a, b = int(rng.integers(len(swapped[i]))), int(rng.integers(len(swapped[j])))
        x, y = swapped[i][a], swapped[j][b]
        if x not in swapped[j] and y not in swapped[i]:
            swapped[i][a], swapped[j][b] = y, x
    out.append((m, n, *rows_to_coo(rng, lengths, np.concatenate([np.sort(r) for r in swapped]))))
    # Columns relabelled.
    q = rng.permutation(n)
    out.append((m, n, *rows_to_coo(rng, lengths, q[indices])))
    if large:
        # Same beginning, other end.
        half = m // 2
        tail = [np.sort(rng.choice(n, size=k, replace=False)) for k in lengths[half:]]
        out.append((m, n, *rows_to_coo(rng, lengths, np.concatenate(rowsets[:half] + tail))))
    return out


def check_direct(ctx, m, n, rows, cols, label, solver=None):
    rng = ctx.rng
    large = n > 50
    vals = rng.normal(size=len(rows)) + np.sign(rng.normal(size=len(rows)))
    order = rng.permutation(len(rows)) if rng.random() < 0.5 else np.arange(len(rows))
    dtype = np.float64 if ctx.x64 else np.float32
    vals, r, c = vals[order].astype(dtype), rows[order], cols[order]
    A = sp.make(vals, r, c, (m, n), jax_arrays=bool(rng.random() < 0.5))
    lam = float(rng.choice([0.3, 1.0, 3.0] if large else [0.0, 0.1, 3.0]))
    g = (sp.dense(vals, r, c, (m, n)).T @ rng.normal(size=m)).astype(dtype)
    solver = solver or jaxfg.sparse.CholmodSolver()
    x = np.asarray(solver.solve_subproblem(A=A, ATb=g, lambd=lam, iteration=0), float)
    H = sp.dense(vals, r, c, (m, n)).astype(float)
    H = H.T @ H
    res = np.linalg.norm((H + lam * np.eye(n)) @ x - g.astype(float))
    bound = 2e-5 * np.linalg.norm(x) + ctx.tol(1e-10, 3e-5) * (np.linalg.norm(H) + lam) * np.linalg.norm(x)
    ctx.check(np.all(np.isfinite(x)) and res <= bound, f"direct solver after other problems ({label}): wrong solution", residual=res, bound=bound,
              values=vals, rows=r, cols=c, shape=(m, n), damping=lam)
    ctx.count("direct_solves_large" if large else "direct_solves")


def run_direct(ctx):
    rng = ctx.rng
    for _ in range(4):
        pats = colliding_patterns(rng)
        for step in range(18):
            k = int(rng.integers(len(pats)))
            check_direct(ctx, *pats[k], f"pattern {k} at step {step}")
        ctx.nontrivial(("direct", [p[2].tolist() + p[3].tolist() for p in pats]))
    shared = jaxfg.sparse.CholmodSolver()
    pats = colliding_patterns(rng, large=True)
    history = [int(k) for k in rng.permutation(len(pats))] + [int(k) for k in rng.integers(len(pats), size=6)]
    for step, k in enumerate(history):
        check_direct(ctx, *pats[k], f"large pattern {k} at step {step}", shared if rng.random() < 0.6 else None)
    ctx.nontrivial(("large", history, pats[0][:2], pats[0][3].tolist()))


# ----------------------------------------------------------------- sequences of graphs


def make_solver(name, tight=True):
    S, L = jaxfg.solvers, jaxfg.sparse
    return {
        "gn": lambda: S.GaussNewtonSolver(verbose=False, max_iterations=30),
        "lm": lambda: S.LevenbergMarquardtSolver(verbose=False, max_iterations=30),
        "dogleg": lambda: S.DoglegSolver(verbose=False, max_iterations=30),
        "gncg": lambda: S.GaussNewtonSolver(verbose=False, max_iterations=30, linear_solver=L.ConjugateGradientSolver(tolerance=1e-8)),
        "fixed": lambda: S.FixedIterationGaussNewtonSolver(verbose=False, iterations=4, unroll=False),
    }[name]()


def family_of_problems(rng):
    """Problems over shared variables whose graphs resemble each other."""
    n = int(rng.integers(3, 6))
    d = ["R2", "R3"][int(rng.integers(2))]
    variables = [zoo.SPECS[d].cls() for _ in range(n)]
    dim = zoo.SPECS[d].pdim
    noise = ["gauss", "diag", "diagcov"]
    unary = zoo.Template("linear", (d,), dim, noise[int(rng.integers(3))])
    pair = zoo.Template("linear", (d, d), dim, noise[int(rng.integers(3))])
    edges = [(i, i + 1) for i in range(n - 1)]

    def problem(vs, pairs, unaries, order):
        plan = [(unary, [i]) for i in unaries] + [(pair, list(e)) for e in pairs]
        plan = [plan[i] for i in order(len(plan))]
        fr = [zoo.instantiate(rng, t, vs, v) for t, v in plan]
        return graphs.GraphCase([d] * n, vs, [f for f, _ in fr], [r for _, r in fr], [t for t, _ in plan])

    ident = lambda k: range(k)
    shuf = lambda k: rng.permutation(k)
    every = list(range(n))
    star = [(0, i) for i in range(1, n)]
    chain2 = [(i, (i + 2) % n) for i in range(n - 1)]
    problems = [
        problem(variables, edges, every, ident),
        problem(variables, edges, every, ident),  # Same structure, other numbers
        problem(variables, star, every, ident),  # Same counts, other edges
        problem(variables, [e[::-1] for e in edges], every, ident),
        problem(variables, chain2, every, shuf),
        problem([zoo.SPECS[d].cls() for _ in range(n)], edges, every, ident),  # Other variables
    ]
    return problems


def lstsq_solution(case):
    zero = [np.zeros(s.pdim) for s in case.specs]
    J, r0 = case.ref_jacobian(zero), case.ref_residual(zero)
    sv = np.linalg.svd(J, compute_uv=False)
    if sv[-1] < 0.05 or sv[0] / sv[-1] > 60:
        return None
    x = np.linalg.lstsq(J, -r0, rcond=None)[0]
    return [x[i * case.specs[0].pdim : (i + 1) * case.specs[0].pdim] for i in range(len(case.specs))]


def run_sequence(ctx):
    rng = ctx.rng
    problems = [p for p in family_of_problems(rng)]
    wants = [lstsq_solution(p) for p in problems]
    keep = [i for i, w in enumerate(wants) if w is not None]
    if len(keep) < 3:
        raise Skip("conditioning")
    built = {i: StackedFactorGraph.make(problems[i].factors) for i in keep}
    starts = {i: problems[i].rand_flats(rng) for i in keep}
    names = [ctx.pick(["gn", "lm", "dogleg", "fixed"]), "gncg"][: 1 + int(rng.random() < 0.3)]
    solvers = {k: make_solver(k) for k in names}  # Reused for all problems
    orders = [None, list(rng.permutation(len(problems[0].variables)))]
    seen = {}
    history = []
    steps = 14
    for step in range(steps):
        i, name = keep[int(rng.integers(len(keep)))], names[int(rng.integers(len(names)))]
        case = problems[i]
        if rng.random() < 0.2:
            built[i] = StackedFactorGraph.make(case.factors)
        if step == 9 and rng.random() < 0.3:
            jax.clear_caches()
            ctx.count("cleared")
        o = int(rng.random() < 0.4)
        history.append((i, name, o))
        ctx.note(history=history, graph=case.describe())
        a0 = case.assignments(starts[i], orders[o])
        cost, res = built[i].compute_cost(a0)
        ctx.close(cost, case.ref_cost(starts[i]), "cost after other problems", ctx.tol(1e-9, 1e-4), 1e-9, history=history)
        out = built[i].solve(a0, solvers[name] if rng.random() < 0.7 else make_solver(name))
        vals = case.read(out)
        c, opt = case.ref_cost(vals), case.ref_cost(wants[i])
        ctx.check(c - opt <= 1e-3 * opt + ctx.tol(1e-3, 1e-3) * case.ref_cost(starts[i]), "wrong solution after other problems", cost=c, minimum=opt,
                  history=history, values=vals, want=wants[i])
        if (i, name) in seen:
            ctx.close(np.concatenate(vals), seen[(i, name)][0], "solution differs from an earlier one of the same problem",
                      ctx.tol(1e-9, 1e-5), ctx.tol(1e-10, 1e-6), history=history)
            ctx.close(res, seen[(i, name)][1], "residual differs from an earlier one of the same problem", ctx.tol(1e-12, 1e-6), ctx.tol(1e-13, 1e-6))
            ctx.count("repeats")
        seen.setdefault((i, name), (np.concatenate(vals), np.asarray(res)))
        ctx.count("graph_solves")
    ctx.nontrivial(("sequence", history, problems[0].signature()))
    ctx.sample(dict(kind="sequence", history=history))


def run_large_graphs(ctx):
    """Larger graphs over the same variables that differ in how these are connected."""
    rng = ctx.rng
    n, d = int(rng.integers(60, 100)), 2
    variables = [zoo.SPECS["R2"].cls() for _ in range(n)]
    unary = zoo.Template("linear", ("R2",), 2, "diag")
    pair = zoo.Template("linear", ("R2", "R2"), 2, "gauss")

    def problem(pairs):
        plan = [(unary, [i]) for i in range(n)] + [(pair, [int(k) for k in e]) for e in pairs]
        fr = [zoo.instantiate(rng, t, variables, v) for t, v in plan]
        return graphs.GraphCase(["R2"] * n, variables, [f for f, _ in fr], [r for _, r in fr], [t for t, _ in plan])

    count = 2 * n
    problems = [problem([rng.choice(n, size=2, replace=False) for _ in range(count)]) for _ in range(3)]
    problems.append(problem([(i % n, (i % n + 1 + i // n) % n) for i in range(count)]))
    solver = ctx.pick([jaxfg.solvers.GaussNewtonSolver(verbose=False, max_iterations=5),
                       jaxfg.solvers.FixedIterationGaussNewtonSolver(verbose=False, iterations=3, unroll=False)])
    built = [StackedFactorGraph.make(p.factors) for p in problems]
    wants = []
    for p in problems:
        zero = [np.zeros(2)] * n
        J, r0 = np.zeros((sum(r.dim for r in p.refs), 2 * n)), p.ref_residual(zero)
        k = 0
        for r in p.refs:
            for M, i in zip(r.linear[0], r.vidx):
                J[k : k + r.dim, 2 * i : 2 * i + 2] += r.noise.W @ M
            k += r.dim
        wants.append(np.linalg.lstsq(J, -r0, rcond=None)[0].reshape(n, 2))
        sv = np.linalg.svd(J, compute_uv=False)
        if sv[-1] < 0.05:
            raise Skip("conditioning")
    history = [int(k) for k in rng.permutation(4)] + [int(k) for k in rng.integers(4, size=3)]
    ctx.note(history=history, variables=n, solver=type(solver).__name__)
    for k in history:
        p = problems[k]
        vals = p.read(built[k].solve(p.assignments(p.rand_flats(rng)), solver))
        c, opt = p.ref_cost(vals), p.ref_cost(list(wants[k]))
        ctx.check(c - opt <= ctx.tol(1e-5, 1e-2) * (1 + opt), "wrong solution after other large problems", cost=c, minimum=opt, history=history)
        ctx.count("graph_solves_large")
    ctx.nontrivial(("large graphs", n, history, type(solver).__name__))


# ------------------------------------------------------------------- vector types


def run_types(ctx):
    """Vector types of many other dimensions in between."""
    rng = ctx.rng
    dims = [1, 2, 3, 4, 6, 9]
    types = {d: jaxfg.core.RealVectorVariable[d] for d in dims}
    variables = {d: [types[d](), types[d]()] for d in dims}
    values = {v: rng.integers(-9, 9, size=d) / 4.0 for d in dims for v in variables[d]}
    a = jaxfg.core.VariableAssignments.make_from_dict(values)
    templates = {d: zoo.Template("linear", (f"R{d}",) * 2, 2, "diag") for d in (1, 2, 3)}
    cases = []
    for d in (1, 2, 3):
        vs = variables[d]
        fr = [zoo.instantiate(rng, t, vs, v) for t, v in [(templates[d], [0, 1]), (templates[d], [1, 0])]]
        cases.append(graphs.GraphCase([f"R{d}"] * 2, vs, [f for f, _ in fr], [r for _, r in fr], [templates[d]] * 2))
    flats = [c.rand_flats(rng) for c in cases]
    before = [np.asarray(StackedFactorGraph.make(c.factors).compute_whitened_residual_vector(c.assignments(f)), float) for c, f in zip(cases, flats)]
    others = [int(k) for k in rng.permutation(np.arange(10, 400))]
    for chunk in range(3):
        for k in others[chunk * 130 : (chunk + 1) * 130]:
            other = jaxfg.core.RealVectorVariable[k]
            ctx.check(other.get_parameter_dim() == k, "dimension of a vector type", dim=k)
        for d in dims:
            T = jaxfg.core.RealVectorVariable[d]
            ctx.check(T is types[d], "the type of a vector dimension changed", dim=d, others=(chunk + 1) * 130)
            ctx.check(isinstance(variables[d][0], T), "an older variable is not of its type any more", dim=d)
            ctx.close(a.get_stacked_value(T), np.stack([values[v] for v in variables[d]]), "stacked values after other types were used", 0, 1e-6)
            both = jaxfg.core.VariableAssignments.make_from_defaults([variables[d][0], T()])
            ctx.check(np.shape(both.get_stacked_value(T)) == (2, d), "old and new variables of a type are stored apart", dim=d)
            ctx.count("type_reads")
        for c, f, want in zip(cases, flats, before):
            got = StackedFactorGraph.make(c.factors).compute_whitened_residual_vector(c.assignments(f))
            ctx.close(got, want, "residual after other types were used", 0, ctx.tol(1e-12, 1e-6))
    ctx.nontrivial(("types", others[:20]))


# -------------------------------------------------------------------------- threads


def run_threads(ctx):
    """Several threads, each with its own problem; large enough for long factorizations."""
    rng = ctx.rng
    big = ctx.case % 2 == 0
    jobs = []
    dtype = np.float64 if ctx.x64 else np.float32
    for k in range(4):
        if k and rng.random() < 0.5 and big:
            m, n, rows, cols = jobs[-1][:4]  # Same pattern, other numbers
        elif big:
            n = int(rng.integers(150, 300))
            m = n + int(rng.integers(400, 900))
            r, c = sp.pattern(rng, m, n, int(m * n * 0.01), "unsorted")
            rows, cols = np.concatenate([r, np.arange(n)]), np.concatenate([c, np.arange(n)])
        else:
            m, n, rows, cols = colliding_patterns(rng)[int(rng.integers(3))]
        vals = rng.normal(size=len(rows)).astype(dtype)
        D = sp.dense(vals, rows, cols, (m, n)).astype(float)
        lam = float(rng.choice([0.1, 1.0]))
        g = (D.T @ rng.normal(size=m)).astype(dtype)
        jobs.append((m, n, rows, cols, vals, D.T @ D + (lam + 1e-5) * np.eye(n), g, lam))
    problems = [p for p in family_of_problems(rng)][:4]
    graph_jobs = []
    solver = make_solver(ctx.pick(["gn", "lm", "dogleg"]))
    for p in problems[:2]:
        g = StackedFactorGraph.make(p.factors)
        a0 = p.assignments(p.rand_flats(rng))
        graph_jobs.append((p, g, a0, np.asarray(g.solve(a0, solver).storage)))
    barrier = threading.Barrier(4)
    failures = []
    rounds = 6 if big else 25

    def work(k):
        try:
            m, n, rows, cols, vals, H, g, lam = jobs[k]
            A = sp.make(vals, rows, cols, (m, n))
            want = np.linalg.solve(H, g.astype(float))
            barrier.wait(60)
            for i in range(rounds):
                x = np.asarray(jaxfg.sparse.CholmodSolver().solve_subproblem(A=A, ATb=g, lambd=lam, iteration=0), float)
                err = np.abs(x - want).max() / (1e-12 + np.abs(want).max())
                if not err <= (1e-6 if ctx.x64 else 1e-2):
                    failures.append(("linear system", k, i, float(err)))
                    return
                if k < 2 and i % 2 == 0:
                    _, graph, a0, expect = graph_jobs[k]
                    got = np.asarray(graph.solve(a0, solver).storage)
                    if not np.allclose(got, expect, rtol=1e-6 if ctx.x64 else 1e-3, atol=1e-6 if ctx.x64 else 1e-3):
                        failures.append(("graph", k, i, float(np.abs(got - expect).max())))
                        return
        except Exception as e:  # noqa: reported below
            failures.append(("exception", k, repr(e)[:500]))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(4)]
        [t.start() for t in threads]
        for t in threads:
            t.join(180)
            if t.is_alive():
                ctx.fail("a thread did not finish", jobs=len(jobs))
    finally:
        sys.setswitchinterval(old)
    ctx.check(not failures, "wrong results while other threads are solving", failures=failures)
    ctx.count("threaded_solves", 4 * rounds)
    ctx.nontrivial(("threads", big, [(j[0], j[1], len(j[2])) for j in jobs]))
    ctx.sample(dict(kind="threads", systems=[(j[0], j[1], len(j[2])) for j in jobs], rounds=rounds))


def run_case(ctx: Ctx):
    kind = ctx.case % 4
    if kind == 0:
        run_direct(ctx)
    elif ctx.case % 16 == 5:
        run_large_graphs(ctx)
    elif ctx.case % 16 == 10:
        run_types(ctx)
    elif kind == 3:
        run_threads(ctx)
    else:
        run_sequence(ctx)
