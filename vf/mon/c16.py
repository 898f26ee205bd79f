"""Marginal covariances against the dense inverse of the information matrix."""
import dataclasses

import jax_dataclasses as jdc
import numpy as np
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import graphs, zoo
from ..core import Ctx, Skip

Cov = jaxfg.experimental.SparseCovariance


def gen(ctx):
    rng = ctx.rng
    noise = zoo.GAUSS_KINDS + ["custom"]
    if rng.random() < 0.25:
        noise = ["huber", "gauss"]
    kinds = [k for k in zoo.KINDS if ctx.x64 or k not in ("prior", "between")]
    types = graphs.companions(rng, graphs.gen_types(rng, int(rng.integers(1, 4)), max_count=3))
    precise = ctx.x64 and rng.random() < 0.3
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 5)), per_template=3, noise_kinds=noise, kinds=kinds)
    for _ in range(20):
        flats = case.rand_flats(rng, 0.8)
        if case.tame(flats):
            break
    else:
        raise Skip("angles")
    for _ in range(4):
        if not graphs.determine(rng, case, flats, ctx.tol(100.0, 15.0), noise):
            raise Skip("conditioning")
        if case.tame(flats) and well_posed(ctx, case, flats):
            return (rescaled(rng, case) if precise and "huber" not in noise else case), flats
    raise Skip("angles")


def rescaled(rng, case):
    """The same graph with all measurements far more precise, or vaguer, or both."""
    overall = float(rng.choice([1e-3, 1.0, 1.0, 1e4, 1e6]))
    factors, refs = [], []
    for f, r in zip(case.factors, case.refs):
        w = overall if overall != 1.0 else float(10 ** rng.uniform(-1.5, 1.5))
        factors.append(jdc.replace(f, noise_model=jaxfg.noises.Gaussian(w * r.noise.W)))
        refs.append(dataclasses.replace(r, noise=zoo.RefNoise("gauss", w * r.noise.W)))
    return graphs.GraphCase(case.types, case.variables, factors, refs, case.templates)


def well_posed(ctx, case, flats):
    w = graphs.huber_weights(case, flats)
    if w is None:
        return False
    sv = np.linalg.svd(w[:, None] * case.ref_jacobian(flats), compute_uv=False)
    ctx.count("outliers", sum(1 for k in range(len(w)) if w[k] < 1))
    return sv[0] / sv[-1] < ctx.tol(100.0, 15.0)


class Model:
    """The reference covariance of a graph, and the queries that can be made."""

    def __init__(self, ctx, case, flats, cov, layout, own=None):
        self.ctx, self.case, self.cov = ctx, case, cov
        self.columns = case.columns(layout)
        J = graphs.huber_weights(case, flats)[:, None] * case.ref_jacobian(flats, self.columns)
        self.S = np.linalg.inv(J.T @ J)
        if own is not None:
            # Numeric differentiation is not precise enough here. The Jacobian is judged elsewhere.
            sv = np.linalg.norm(J)
            ctx.check(np.abs(own - J.T @ J).max() <= ctx.tol(1e-5, 1e-2) * sv**2, "information matrix of the graph")
            self.S = np.linalg.inv(own)
        self.scale = np.abs(self.S).max()
        ctx.count("precise", self.scale < 1e-6)
        self.tol = ctx.tol(2e-5, 2e-2) * self.scale
        if own is not None:
            self.tol = 1e-13 * np.linalg.cond(own) * self.scale
        self.n = self.S.shape[0]
        self.earlier = []

    def query(self):
        ctx, rng, case = self.ctx, self.ctx.rng, self.case
        kind = ctx.pick(["entry", "entry", "marginal", "marginal", "dense0", "dense1", "mirror"])
        if kind in ("entry", "mirror"):
            for _ in range(5):
                i, j = (int(k) for k in rng.integers(self.n, size=2))
                ctx.close(self.cov[i, j], self.S[i, j], "covariance entry", 0, self.tol, index=(i, j), graph=case.describe())
                if kind == "mirror":
                    ctx.check(abs(self.cov[i, j] - self.cov[j, i]) <= 1e-9 * self.scale, "covariance entries are not symmetric", index=(i, j))
                ctx.count("entries")
            return
        if kind == "marginal":
            k = int(rng.integers(1, min(4, len(case.variables)) + 1))
            chosen = [int(i) for i in rng.permutation(len(case.variables))[:k]]
            got = self.cov.compute_marginal(*[case.variables[i] for i in chosen])
            idx = np.concatenate([np.arange(self.columns[i], self.columns[i] + case.specs[i].ldim) for i in chosen])
            want = self.S[np.ix_(idx, idx)]
            label = f"marginal of variables {chosen}"
            ctx.count("marginals")
        else:
            got, want = self.cov.as_dense(use_inverse=kind == "dense1"), self.S
            label = f"dense covariance (use_inverse={kind == 'dense1'})"
            ctx.count("dense")
        ctx.check(isinstance(got, np.ndarray), f"{label}: not an array", type=type(got))
        got = np.asarray(got)
        ctx.close(got, want, label, 0, self.tol, graph=case.describe())
        ctx.check(np.abs(got - got.T).max() <= 1e-9 * self.scale, f"{label}: not symmetric")
        # The result belongs to the caller, and stays what it was.
        self.earlier.append((label, got, got.copy()))
        if rng.random() < 0.3:
            got *= -3.0
            self.earlier.pop()
        for label, a, b in self.earlier:
            ctx.check(np.array_equal(a, b), f"{label}: changed by a later query")


def run_small(ctx):
    rng = ctx.rng
    models = []
    for _ in range(2):
        case, flats = gen(ctx)
        graph = StackedFactorGraph.make(case.factors)
        ctx.note(graph=case.describe())
        points = [flats]
        other = case.rand_flats(rng, 0.5)
        if case.tame(other) and well_posed(ctx, case, other):
            points.append(other)
        for p in points:
            a = case.assignments(p, list(rng.permutation(len(p))))
            own = None
            if ctx.x64:
                J = graphs.dense_from_coo(graph.compute_whitened_residual_jacobian(a, graph.compute_whitened_residual_vector(a)))
                own = J.T @ J
            models.append(Model(ctx, case, p, Cov.make(graph, a), graph.local_storage_layout, own))
        ctx.nontrivial(case.signature())
        ctx.sample(case.describe())
    for _ in range(14):
        models[int(rng.integers(len(models)))].query()


def run_units(ctx):
    """Variables in very different units: strong couplings between large and small numbers."""
    rng = ctx.rng
    types = [ctx.pick(["R1", "R2", "R3"]) for _ in range(int(rng.integers(2, 6)))]
    dims = [zoo.SPECS[t].pdim for t in types]
    variables = [zoo.SPECS[t].cls() for t in types]
    units = [float(10 ** rng.uniform(-2, 2)) for _ in types]
    start = np.cumsum([0] + dims)
    factors, rows = [], []
    for i in range(len(types)):
        for vidx in ([i],) if rng.random() < 0.3 or i == 0 else ([i - 1, i], [i]):
            n = dims[vidx[-1]]
            Ms = [units[k] * rng.normal(size=(n, dims[k])) + (2 * units[k] * np.eye(n) if k == i else 0) for k in vidx]
            w = float(rng.choice([0.3, 3.0]))
            factors.append(zoo.LinearFactor(variables=tuple(variables[k] for k in vidx), noise_model=jaxfg.noises.DiagonalGaussian(np.full(n, w)),
                                            Ms=tuple(Ms), b=rng.normal(size=n)))
            row = np.zeros((n, start[-1]))
            for k, M in zip(vidx, Ms):
                row[:, start[k] : start[k + 1]] = w * M
            rows.append(row)
    J = np.concatenate(rows)
    H = J.T @ J
    cond = np.linalg.cond(H)
    if not cond < 1e10:
        raise Skip("conditioning")
    S = np.linalg.inv(H)
    tol = 1e-13 * cond * np.abs(S).max()
    graph = StackedFactorGraph.make(factors)
    cov = Cov.make(graph, jaxfg.core.VariableAssignments.make_from_dict({v: rng.normal(size=d) for v, d in zip(variables, dims)}))
    columns = [graph.local_storage_layout.index_from_variable[v] for v in variables]
    at = np.concatenate([np.arange(c, c + d) for c, d in zip(columns, dims)])
    for inverse in (False, True):
        ctx.close(np.asarray(cov.as_dense(use_inverse=inverse))[np.ix_(at, at)], S, f"dense covariance of mixed units (use_inverse={inverse})", 0, tol, units=units)
    for i in range(len(types)):
        k = slice(start[i], start[i + 1])
        ctx.close(cov.compute_marginal(variables[i]), S[k, k], "marginal in mixed units", 0, tol, units=units)
    ctx.count("units")
    ctx.nontrivial(("units", tuple(types), ctx.case))


def run_large(ctx):
    """Pose chains and grids that are too large for a quick look."""
    rng = ctx.rng
    name = ctx.pick(["SE2", "SO2", "R2", "SE3"]) if ctx.x64 else "R2"
    s = zoo.SPECS[name]
    n = int(rng.integers(120, 400)) if s.ldim <= 3 else int(rng.integers(60, 150))
    types = [name] * n
    variables = [s.cls() for _ in types]
    truth = [s.rand(rng, 0.5) for _ in types]
    factors, refs, templates = [], [], []

    def add(kind, vidx):
        dim = s.ldim
        t = zoo.Template(kind, (name,) * len(vidx), dim, ctx.pick(["gauss", "diag"]))
        t = zoo.Template(t.kind, t.types, t.dim, "gauss") if kind == "linear" else t
        f, r = zoo.instantiate(rng, t, variables, vidx, 1.0, truth, 0.2)
        factors.append(f), refs.append(r), templates.append(t)

    unary, binary = ("linear", "linear") if name == "R2" else ("prior", "between")
    for i in range(n):
        if i == 0 or rng.random() < 0.05:
            add(unary, [i])
        if i:
            add(binary, [i - 1, i])
    for _ in range(int(rng.integers(0, 4))):
        i = int(rng.integers(n))
        add(binary, [i, int(rng.integers(max(0, i - 15), min(n, i + 15)))])
    case = graphs.GraphCase(types, variables, factors, refs, templates)
    ctx.note(type=name, variables=n)
    if not case.tame(truth):
        flats = None
        for _ in range(10):
            flats = case.retract(truth, [0.1 * rng.normal(size=s.ldim) for _ in types])
            if case.tame(flats):
                break
        else:
            raise Skip("angles")
    else:
        flats = truth
    graph = StackedFactorGraph.make(factors)
    J = case.ref_jacobian(flats)
    sv = np.linalg.svd(J, compute_uv=False)
    if not sv[0] / max(sv[-1], 1e-300) < ctx.tol(1e4, 30.0):
        raise Skip("conditioning")
    cov = Cov.make(graph, case.assignments(flats))
    m = Model(ctx, case, flats, cov, graph.local_storage_layout)
    m.tol = max(m.tol, ctx.tol(1e-4, 2e-2) * m.scale)
    for i in [0, n // 2, n - 1] + [int(k) for k in rng.integers(n, size=3)]:
        got = np.asarray(cov.compute_marginal(variables[i]))
        c = m.columns[i]
        ctx.close(got, m.S[c : c + s.ldim, c : c + s.ldim], f"marginal of variable {i} of {n}", 0, m.tol, type=name)
        ctx.count("marginals_large")
    for _ in range(5):
        i = int(rng.integers(m.n))
        j = int(np.clip(i + rng.integers(-6, 7), 0, m.n - 1))
        ctx.close(cov[i, j], m.S[i, j], f"entry {i},{j} of {m.n}", 0, m.tol, type=name)
    ctx.nontrivial(("large", name, n, len(factors)))


def run_case(ctx: Ctx):
    if ctx.x64:
        for _ in range(3):
            try:
                run_units(ctx)
            except Skip:
                pass
    if ctx.case % 8 == 5:
        run_large(ctx)
    else:
        run_small(ctx)
