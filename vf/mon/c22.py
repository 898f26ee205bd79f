"""Inconsistent inputs have to be rejected; their consistent counterparts accepted."""
import numpy as np
import jax
import jaxlie
from jax import numpy as jnp
import jaxfg
from jaxfg.core import StackedFactorGraph, StorageLayout, VariableAssignments

from .. import graphs, zoo
from ..core import Ctx

S, L, N = jaxfg.solvers, jaxfg.sparse, jaxfg.noises


class Case:
    def __init__(self, ctx):
        rng = self.rng = ctx.rng
        self.ctx = ctx
        types = graphs.companions(rng, graphs.gen_types(rng, int(rng.integers(1, 4)), max_count=3))
        self.case = graphs.gen_graph(rng, types, n_templates=2, per_template=2, noise_kinds=zoo.GAUSS_KINDS)
        self.graph = StackedFactorGraph.make(self.case.factors)
        self.n = len(types)
        self.values = {v: s.to_value(s.rand(rng)) for v, s in zip(self.case.variables, self.case.specs)}

    def reject(self, what, fn, **kw):
        self.ctx.must_raise(lambda: jax.block_until_ready(fn()), what, graph=self.case.describe(), **kw)

    def evaluate(self, a):
        """All ways of using assignments with a graph."""
        g = self.graph
        r = np.zeros(sum(x.dim for x in self.case.refs))
        which = self.ctx.pick(["residual", "cost", "jacobian", "nll", "gn", "fixed", "lm", "dogleg", "covariance"])
        common = dict(verbose=False, max_iterations=1, linear_solver=L.ConjugateGradientSolver())
        return which, {
            "residual": lambda: g.compute_whitened_residual_vector(a),
            "cost": lambda: g.compute_cost(a),
            "jacobian": lambda: g.compute_whitened_residual_jacobian(a, r).values,
            "nll": lambda: g.compute_joint_nll(a),
            "gn": lambda: g.solve(a, S.GaussNewtonSolver(**common)).storage,
            "lm": lambda: g.solve(a, S.LevenbergMarquardtSolver(**common)).storage,
            "dogleg": lambda: g.solve(a, S.DoglegSolver(**common)).storage,
            "fixed": lambda: g.solve(a, S.FixedIterationGaussNewtonSolver(verbose=False, iterations=1, linear_solver=L.ConjugateGradientSolver())).storage,
            "covariance": lambda: jaxfg.experimental.SparseCovariance.make(g, a).as_dense(),
        }[which]


def wrong_variables(ctx):
    c = Case(ctx)
    rng, case = c.rng, c.case
    k = int(rng.integers(c.n))
    vk, sk = case.variables[k], case.specs[k]
    stranger = sk.cls()
    fresh = sk.to_value(sk.rand(rng))
    without = {v: x for v, x in c.values.items() if v is not vk}
    variants = {
        "an additional variable of a known type": {**c.values, stranger: fresh},
        "one variable replaced by another of its type": {**without, stranger: fresh},
        "an additional variable of another type": {**c.values, **dict([_other(ctx, case)])},
    }
    swap_v, swap_x = _same_dim(ctx, sk)
    if swap_v is not None:
        variants["one variable replaced by another type of equal size"] = {**without, swap_v: swap_x}
    if without:
        variants["a missing variable"] = without
    label = ctx.pick(list(variants))
    d = variants[label]
    items = list(d.items())
    d = {items[i][0]: items[i][1] for i in rng.permutation(len(items))}
    a = VariableAssignments.make_from_dict(d)
    for _ in range(2):
        which, fn = c.evaluate(a)
        c.reject(f"assignments with {label} used for {which}", fn)
    # Local instead of global assignments.
    local = VariableAssignments(storage=jnp.zeros(case.ldim), storage_layout=c.graph.local_storage_layout)
    which, fn = c.evaluate(local)
    c.reject(f"local assignments used for {which}", fn)
    # Reordering to a layout of other variables.
    good = VariableAssignments.make_from_dict(c.values)
    c.reject("reordering to a layout of other variables", lambda: good.update_storage_layout(a.storage_layout).storage)
    c.reject("reordering to a local layout", lambda: good.update_storage_layout(c.graph.local_storage_layout).storage)
    # The consistent counterpart works.
    which, fn = c.evaluate(good)
    if which != "covariance":
        jax.block_until_ready(fn())
        ctx.count("accepted")
    ctx.nontrivial(("variables", label, which, case.signature()))


def _other(ctx, case):
    names = [t for t in graphs.ALL_TYPES if t not in case.types]
    s = zoo.SPECS[ctx.pick(names)]
    return s.cls(), s.to_value(s.rand(ctx.rng))


def _same_dim(ctx, spec):
    names = [s for s in zoo.SPECS.values() if s.pdim == spec.pdim and s.ldim == spec.ldim and s.cls is not spec.cls]
    if not names:
        return None, None
    s = ctx.pick(names)
    return s.cls(), s.to_value(s.rand(ctx.rng))


def unknown_variable(ctx):
    c = Case(ctx)
    rng, case = c.rng, c.case
    a = VariableAssignments.make_from_dict(c.values)
    k = int(rng.integers(c.n))
    s = case.specs[k]
    stranger = s.cls()
    fresh = s.to_value(s.rand(rng))
    c.reject("reading an unknown variable", lambda: a.get_value(stranger))
    c.reject("writing an unknown variable", lambda: a.set_value(stranger, fresh).storage)
    v, x = _other(ctx, case)
    c.reject("reading a variable of an unknown type", lambda: a.get_value(v))
    c.reject("writing a variable of an unknown type", lambda: a.set_value(v, x).storage)
    c.reject("reading all of an unknown type", lambda: a.get_stacked_value(type(v)))
    f = zoo.LinearFactor(variables=(zoo.SPECS["R2"].cls(),), noise_model=N.DiagonalGaussian(np.ones(2)), Ms=(np.eye(2),), b=np.zeros(2))
    g = StackedFactorGraph.make([f])
    b = VariableAssignments.make_from_defaults(f.variables)
    sc = jaxfg.experimental.SparseCovariance.make(g, b)
    ctx.check(np.shape(sc.compute_marginal(f.variables[0])) == (2, 2), "marginal of a known variable")
    c.reject("marginal of an unknown variable", lambda: sc.compute_marginal(zoo.SPECS["R2"].cls()))
    out = a.set_value(case.variables[k], fresh)
    ctx.close(s.from_value(out.get_value(case.variables[k])), s.from_value(fresh), "writing a known variable", 1e-6, 1e-6)
    ctx.count("accepted")
    ctx.nontrivial(("unknown", case.signature()))


def deltas(ctx):
    c = Case(ctx)
    rng, case = c.rng, c.case
    a = VariableAssignments.make_from_dict(c.values)
    mk = lambda layout: VariableAssignments(storage=jnp.asarray(rng.normal(size=layout.dim) * 0.1), storage_layout=layout)
    vs = list(case.variables)
    good = mk(StorageLayout.make([vs[i] for i in rng.permutation(c.n)], local=True))
    jax.block_until_ready(a.manifold_retract(good).storage)
    ctx.count("accepted")
    c.reject("global deltas", lambda: a.manifold_retract(mk(a.storage_layout)).storage)
    c.reject("the assignments as their own deltas", lambda: a.manifold_retract(a).storage)
    if c.n > 1:
        k = int(rng.integers(c.n))
        c.reject("deltas lacking a variable", lambda: a.manifold_retract(mk(StorageLayout.make(vs[:k] + vs[k + 1 :], local=True))).storage)
    k = int(rng.integers(c.n))
    stranger = type(vs[k])()
    c.reject("deltas with an additional variable", lambda: a.manifold_retract(mk(StorageLayout.make(vs + [stranger], local=True))).storage)
    c.reject("deltas with a replaced variable", lambda: a.manifold_retract(mk(StorageLayout.make(vs[:k] + [stranger] + vs[k + 1 :], local=True))).storage)
    v, x = _same_dim(ctx, case.specs[k])
    if v is not None:
        c.reject("deltas with a variable of another type of equal size",
                 lambda: a.manifold_retract(mk(StorageLayout.make(vs[:k] + [v] + vs[k + 1 :], local=True))).storage)
    c.reject("retracting local assignments", lambda: good.manifold_retract(good).storage)
    ctx.nontrivial(("deltas", case.signature(), k))


def resize(rng, s, f):
    """Values of the right structure and the wrong size."""
    v = s.to_value(f)
    leaves, treedef = jax.tree_util.tree_flatten(v)
    i = int(rng.integers(len(leaves)))
    x = np.asarray(leaves[i])
    how = rng.integers(4)
    if how == 0:
        leaves[i] = np.zeros(x.size + 1)
    elif how == 1:
        leaves[i] = np.zeros(max(x.size - 1, 0))
    elif how == 2:
        leaves[i] = np.stack([x, x])
    else:
        leaves[i] = np.zeros(x.size * 3 + 2)
    return leaves, treedef


def sizes(ctx):
    c = Case(ctx)
    rng, case = c.rng, c.case
    a = VariableAssignments.make_from_dict(c.values)
    for k in range(c.n):
        s, v = case.specs[k], case.variables[k]
        leaves, treedef = resize(rng, s, s.rand(rng))
        if sum(np.size(x) for x in leaves) == s.pdim:
            continue
        if s.name in zoo.ARRAY_NAMES + ["Sphere"]:
            bad = leaves[0]
        elif s.hint in ("dict", "tuple", "pair"):
            bad = jax.tree_util.tree_unflatten(treedef, leaves)
        else:
            # A value of another group, or a bare array of the wrong size.
            other = ctx.pick([x for x in ("SO2", "SE2", "SO3", "SE3") if zoo.SPECS[x].pdim != s.pdim])
            bad = zoo.SPECS[other].to_value(zoo.SPECS[other].rand(rng)) if rng.random() < 0.5 else np.zeros(s.pdim + 1)
        c.reject("writing a value of the wrong size", lambda: a.set_value(v, bad).storage, type=s.name, shapes=[np.shape(x) for x in jax.tree_util.tree_leaves(bad)])
        c.reject("assignments with a value of the wrong size", lambda: VariableAssignments.make_from_dict({**c.values, v: bad}).storage, type=s.name,
                 shapes=[np.shape(x) for x in jax.tree_util.tree_leaves(bad)])
        c.reject("partial assignments with a value of the wrong size", lambda: VariableAssignments.make_from_partial_dict(case.variables, {v: bad}).storage,
                 type=s.name)
    # Sizes that cancel out between two values.
    vs = [zoo.SPECS["R3"].cls(), zoo.SPECS["R3"].cls()]
    c.reject("values whose wrong sizes cancel", lambda: VariableAssignments.make_from_dict({vs[0]: jnp.zeros(2), vs[1]: jnp.zeros(4)}).storage)
    # A scalar is not broadcast.
    c.reject("a number as a vector", lambda: VariableAssignments.make_from_dict({vs[0]: jnp.asarray(1.0), vs[1]: jnp.zeros(3)}).storage)
    b = VariableAssignments.make_from_defaults(vs)
    c.reject("writing a number to a vector", lambda: b.set_value(vs[0], jnp.asarray(1.0)).storage)
    c.reject("writing a vector of length one to a longer one", lambda: b.set_value(vs[0], jnp.ones(1)).storage)
    ctx.count("accepted")
    ctx.nontrivial(("sizes", case.signature()))


def noise_sizes(ctx):
    c = Case(ctx)
    rng = c.rng
    for _ in range(3):
        n = int(rng.integers(2, 6))
        m = int(ctx.pick([k for k in (1, n - 1, n + 1, 2 * n) if k != n and k > 0]))
        model, ref = zoo.make_noise(rng, ctx.pick(zoo.GAUSS_KINDS), n)
        kind = type(model).__name__
        jax.block_until_ready(model.whiten_residual_vector(jnp.ones(n)))
        c.reject(f"{kind}: residual of the wrong size", lambda: model.whiten_residual_vector(jnp.ones(m)), model=n, residual=m)
        c.reject(f"{kind}: Jacobian of the wrong size", lambda: model.whiten_jacobian(jnp.ones((m, 3)), jnp.ones(n)), model=n, residual=m)
        wrapped = N.HuberWrapper(wrapped=model, delta=1.0)
        c.reject(f"Huber {kind}: residual of the wrong size", lambda: wrapped.whiten_residual_vector(jnp.ones(m)), model=n, residual=m)
        # Through a graph.
        v = zoo.SPECS["R3"].cls()
        for noise in (model, wrapped):
            f = zoo.LinearFactor(variables=(v,), noise_model=noise, Ms=(np.ones((m, 3)),), b=np.zeros(m))
            a = VariableAssignments.make_from_defaults([v])
            g = lambda: StackedFactorGraph.make([f])
            c.reject(f"graph whose residual does not fit its {type(noise).__name__}", lambda: g().compute_cost(a), model=n, residual=m)
            c.reject(f"graph whose residual does not fit its {type(noise).__name__} (Jacobian)",
                     lambda: g().compute_whitened_residual_jacobian(a, jnp.zeros(n)).values, model=n, residual=m)
            c.reject(f"solving a graph whose residual does not fit its {type(noise).__name__}",
                     lambda: g().solve(a, S.GaussNewtonSolver(verbose=False, linear_solver=L.ConjugateGradientSolver())).storage, model=n, residual=m)
        ctx.count("accepted")
    # Covariances.
    n = int(rng.integers(1, 5))
    for shape in ((n, n + 1), (n + 1, n), (n + 2,), (2, n, n + 1)):
        c.reject("covariance that is not a square matrix", lambda: N.Gaussian.make_from_covariance(np.ones(shape) + np.eye(*shape) if len(shape) == 2 else np.ones(shape)).sqrt_precision_matrix,
                 shape=shape)
    N.Gaussian.make_from_covariance(np.eye(n))
    ctx.nontrivial(("noise", ctx.case))


def geometry(ctx):
    c = Case(ctx)
    rng = c.rng
    B, P = jaxfg.geometry.BetweenFactor, jaxfg.geometry.PriorFactor
    names = zoo.LIE_NAMES
    for name in names:
        s = zoo.SPECS[name]
        noise = N.Gaussian(np.eye(s.ldim))
        v, w, z = s.cls(), s.cls(), s.to_value(s.rand(rng))
        B.make(v, w, z, noise)
        ctx.count("accepted")
        other = zoo.SPECS[ctx.pick([x for x in names if x != name])]
        o, oz = other.cls(), other.to_value(other.rand(rng))
        c.reject("between factor over different variable types", lambda: B.make(v, o, z, noise).T_a_b.parameters())
        c.reject("between factor over different variable types, reversed", lambda: B.make(o, v, z, noise).T_a_b.parameters())
        c.reject("between factor with a measurement from another group", lambda: B.make(v, w, oz, noise).T_a_b.parameters(), type=name, measurement=other.name)
        # A prior from another group cannot be evaluated.
        def prior(mean):
            f = P.make(v, mean, noise)
            return StackedFactorGraph.make([f]).compute_cost(VariableAssignments.make_from_dict({v: z}))

        jax.block_until_ready(prior(s.to_value(s.rand(rng))))
        c.reject("prior with a mean from another group", lambda: prior(oz), type=name, mean=other.name)
    sub = zoo.SPECS["SE2Sub"]
    v, w = zoo.SPECS["SE2"].cls(), sub.cls()
    c.reject("between factor over a variable type and its subclass", lambda: B.make(v, w, sub.to_value(sub.rand(rng)), N.Gaussian(np.eye(3))).T_a_b.parameters())
    c.reject("between factor over a vector variable", lambda: B.make(v, zoo.SPECS["R3"].cls(), sub.to_value(sub.rand(rng)), N.Gaussian(np.eye(3))).T_a_b.parameters())
    ctx.nontrivial(("geometry", ctx.case))


def run_case(ctx: Ctx):
    [wrong_variables, wrong_variables, unknown_variable, deltas, sizes, noise_sizes, geometry][ctx.case % 7](ctx)
