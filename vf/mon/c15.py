"""Huber noise: weighting of residuals and Jacobians, derivatives, minimizers."""
import numpy as np
import jax
from jax import numpy as jnp
import jaxfg
from jaxfg.core import StackedFactorGraph
from scipy.optimize import minimize

from .. import graphs, zoo
from ..core import Ctx, Skip

KNOWN = "huber-trust-region-cost"


def rho(m, delta):
    return m * m if m < delta else 2 * delta * m - delta**2


def noise_level(ctx):
    rng = ctx.rng
    t = ctx.tol(1e-9, 2e-5)
    dt = np.float64 if ctx.x64 else np.float32
    for _ in range(3):
        n = int(rng.integers(1, 6))
        inner, ref = zoo.make_noise(rng, ctx.pick(zoo.GAUSS_KINDS + ["custom"]), n)
        W = ref.W
        delta = float(np.float32(10 ** (rng.uniform(-1, 1) if rng.random() < 0.5 else rng.uniform(*ctx.tol((-6, 5), (-4, 3))))))
        model = jaxfg.noises.HuberWrapper(wrapped=inner, delta=delta)
        ctx.check(model.get_residual_dim() == n, "residual dimension")
        J = rng.normal(size=(n, int(rng.integers(1, 5)))).astype(dt)
        for ratio in (0.0, 1e-6, 0.1, 0.9, 0.999, 1.001, 1.5, 4.0, 100.0, 1e4, 1e6):
            u = rng.normal(size=n)
            m = ratio * delta
            r = np.linalg.solve(W, u / np.linalg.norm(u) * m).astype(dt)
            w0 = W @ r.astype(float)
            m = np.linalg.norm(w0)
            if abs(m - delta) < 1e-5 * delta:
                continue
            got = np.asarray(model.whiten_residual_vector(jnp.asarray(r)), float)
            gJ = np.asarray(model.whiten_jacobian(jnp.asarray(J), jnp.asarray(got.astype(dt))), float)
            info = dict(delta=delta, norm=m, W=W, r=r)
            WJ = W @ J.astype(float)
            s = np.linalg.norm(WJ)
            if m < delta:
                ctx.close(got, w0, "inlier residual", 0, t * (m + 1e-12), **info)
                ctx.close(gJ, WJ, "inlier Jacobian", 0, t * s, **info)
                ctx.count("inliers")
            else:
                ctx.close(got, w0 / m * np.sqrt(delta * m), "outlier residual", 0, t * np.sqrt(delta * m), **info)
                half_gradient = WJ.T @ w0 * (delta / m)
                ctx.close(gJ.T @ got, half_gradient, "outlier: Jacobian times residual is not half the Huber gradient", 0,
                          10 * t * s * delta, **info)
                ctx.count("outliers")
            # Derivatives through the whitening.
            f = lambda r: jnp.sum(model.whiten_residual_vector(r) ** 2)
            g = np.asarray(jax.grad(f)(jnp.asarray(r)), float)
            D = np.asarray(jax.jacfwd(model.whiten_residual_vector)(jnp.asarray(r)), float)
            ctx.check(np.all(np.isfinite(g)) and np.all(np.isfinite(D)), "derivative of the whitening is not finite", **info)
            want = 2 * W.T @ w0 if m < delta else delta * (W.T @ w0) / m
            ctx.close(g, want, "gradient of the squared whitened residual", 0, 100 * t * (1e-9 + np.linalg.norm(W) * min(m, delta) * 2), **info)
            if m < delta:
                ctx.close(D, W, "derivative of an inlier's whitening", 0, t * np.linalg.norm(W), **info)
            ctx.count("derivatives")
            # A robust model wrapped once more: both thresholds apply, to the Jacobian as to the residual.
            outer = float(delta * np.exp(rng.uniform(-1.5, 1.5)))
            s1 = 1.0 if m < delta else np.sqrt(delta / m)
            m1 = s1 * m
            if abs(m1 - outer) > 1e-4 * outer:
                s2 = 1.0 if m1 < outer else np.sqrt(outer / m1)
                twice = jaxfg.noises.HuberWrapper(wrapped=model, delta=outer)
                got = np.asarray(twice.whiten_residual_vector(jnp.asarray(r)), float)
                gJ = np.asarray(twice.whiten_jacobian(jnp.asarray(J), jnp.asarray(got.astype(dt))), float)
                ctx.close(got, s1 * s2 * w0, "residual wrapped twice", 0, 2 * t * (s1 * s2 * m + 1e-12), outer=outer, **info)
                ctx.close(gJ, s1 * s2 * WJ, "Jacobian wrapped twice", 0, 10 * t * s * s1 * s2, outer=outer, **info)
                ctx.count("wrapped_twice")
        gd = np.asarray(jax.grad(lambda d: jnp.sum(jaxfg.noises.HuberWrapper(inner, d).whiten_residual_vector(jnp.zeros(n)) ** 2))(delta))
        ctx.check(np.isfinite(gd), "derivative with respect to the threshold at zero residual", delta=delta)
        ctx.nontrivial(("noise", n, ref.kind, round(delta, 5)))


def graph_level(ctx):
    """Residual and Jacobian of a graph in which several factors are outliers."""
    rng = ctx.rng
    types = graphs.gen_types(rng, int(rng.integers(1, 4)), pool=["R2", "R3", "SE2", "SO3", "VecA", "Affine"], max_count=3)
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 4)), per_template=4, noise_kinds=["huber", "huber", "gauss"],
                            kinds=["linear", "any"] + ctx.tol(["prior", "between"], []))
    graph = StackedFactorGraph.make(case.factors)
    ctx.note(graph=case.describe())
    columns = case.columns(graph.local_storage_layout)
    for k in range(3):
        for _ in range(30):
            flats = case.rand_flats(rng, [0.2, 1.0, 1.5][k])
            if case.tame(flats):
                break
        else:
            continue
        a = case.assignments(flats, list(rng.permutation(len(flats))))
        r = graph.compute_whitened_residual_vector(a)
        A = graph.compute_whitened_residual_jacobian(a, r)
        J = graphs.dense_from_coo(A)
        r = np.asarray(r, float)
        rows_J, want_r, outliers, close_call = [], [], 0, False
        Jfull = case.ref_jacobian(flats, columns)
        i = 0
        gradient = np.zeros(J.shape[1])
        for ref in case.refs:
            w = ref.noise.W @ ref.residual(flats)
            B = Jfull[i : i + ref.dim]
            i += ref.dim
            m = np.linalg.norm(w)
            scale = 1.0
            if ref.noise.deltas:
                d = ref.noise.deltas[0]
                close_call |= abs(m - d) < 1e-4 * d
                if m >= d:
                    scale = np.sqrt(d / m)
                    outliers += 1
            rows_J.append(scale * B)
            want_r.append(scale * w)
            gradient += scale**2 * (B.T @ w)
        if close_call:
            continue
        S = 1 + np.abs(Jfull).max() * (1 + np.abs(np.concatenate(want_r)).max())
        tol = ctx.tol(1e-5, 5e-3)
        ctx.close(J.T @ r, gradient, "gradient of the graph is not half that of the Huber loss", 0, tol * S, graph=case.describe())
        got = np.column_stack([r, J])
        want = np.column_stack([np.concatenate(want_r), np.concatenate(rows_J)])
        dev = graphs.match_rows(got, want)
        ctx.check(dev <= ctx.tol(5e-6, 5e-3) * S, f"weighted residual and Jacobian rows (deviation {dev:.3g})", graph=case.describe())
        ctx.count("graph_outliers", outliers)
        ctx.count("graph_evaluations")
    ctx.nontrivial(("graph", case.signature()))


def minimizer(ctx):
    """Convex regression problems with outliers, against a general-purpose minimizer."""
    rng = ctx.rng
    types = graphs.gen_types(rng, int(rng.integers(1, 3)), pool=["R1", "R2", "R3", "VecA"], max_count=2)
    truth = [zoo.SPECS[t].rand(rng) for t in types]
    noise = ["huber", "huber", "huber", "gauss"]
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 4)), per_template=5, noise_kinds=noise, kinds=["linear"],
                            truth=truth, meas_noise=0.05)
    if not graphs.determine(rng, case, truth, 30.0, ["huber"], truth, 0.05):
        raise Skip("conditioning")
    # Gross outliers.
    for k in range(len(case.factors)):
        if rng.random() < 0.3 and case.refs[k].noise.deltas:
            f, r = zoo.instantiate(rng, case.templates[k], case.variables, case.refs[k].vidx, 1.0, truth, float(rng.choice([2.0, 20.0])))
            case.factors[k], case.refs[k] = f, r
    graph = StackedFactorGraph.make(case.factors)
    split = np.cumsum([s.pdim for s in case.specs])[:-1]

    def loss(x):
        flats = np.split(x, split)
        total, grad = 0.0, np.zeros_like(x)
        for r in case.refs:
            w = r.noise.W @ r.residual(flats)
            m = np.linalg.norm(w)
            d = r.noise.deltas[0] if r.noise.deltas else np.inf
            total += rho(m, d)
            s = 2.0 if m < d else 2 * d / m
            for M, i in zip(r.linear[0], r.vidx):
                lo = 0 if i == 0 else split[i - 1]
                grad[lo : lo + case.specs[i].pdim] += s * (r.noise.W @ M).T @ w
        return total, grad

    flats = case.rand_flats(rng, 2.0)
    x0 = np.concatenate(flats)
    best = minimize(loss, x0, jac=True, method="BFGS", options=dict(gtol=1e-10, maxiter=2000))
    best = minimize(loss, best.x, jac=True, method="BFGS", options=dict(gtol=1e-10, maxiter=2000))
    if np.abs(best.jac).max() > 1e-5:
        raise Skip("reference minimizer")
    opt = best.fun
    a0 = case.assignments(flats)
    S, L = jaxfg.solvers, jaxfg.sparse
    kw = dict(verbose=False, max_iterations=300, cost_tolerance=0.0, gradient_tolerance=1e-12, gradient_tolerance_start_step=0, parameter_tolerance=1e-12)
    name = ["gn", "fixed", "lm", "dogleg", "gncg"][(ctx.case // 4) % 5]
    solver = {
        "gn": lambda: S.GaussNewtonSolver(**kw),
        "gncg": lambda: S.GaussNewtonSolver(linear_solver=L.ConjugateGradientSolver(tolerance=1e-9), **kw),
        "fixed": lambda: S.FixedIterationGaussNewtonSolver(verbose=False, iterations=300, unroll=False),
        "lm": lambda: S.LevenbergMarquardtSolver(**kw),
        "dogleg": lambda: S.DoglegSolver(**kw),
    }[name]()
    ctx.note(graph=case.describe(), solver=name)
    vals = case.read(graph.solve(a0, solver))
    got = loss(np.concatenate(vals))[0]
    start = loss(x0)[0]
    tol = ctx.tol(1e-5, 1e-3)
    info = dict(solver=name, loss=got, minimum=opt, initial=start)
    if got - opt > tol * (opt + 1e-2):
        # The trust-region solvers judge steps by the squared norm of the rescaled
        # residuals, which is not the Huber loss: they may stop where a step along the
        # Huber gradient does not reduce that cost.
        g = loss(np.concatenate(vals))[1]
        cost = lambda x: case.ref_cost(np.split(x, split))
        x = np.concatenate(vals)
        h = 1e-5 / (1e-12 + np.linalg.norm(g))
        slope = (cost(x - h * g) - cost(x)) / (-h * (g @ g))  # 1 if the cost followed the loss
        if name in ("lm", "dogleg") and got <= start * (1 + 1e-9) and slope < 0.75:
            ctx.known_finding(KNOWN, "Levenberg-Marquardt and dogleg can stop short of the minimum of the Huber loss")
            ctx.count("known_form")
        else:
            ctx.fail("not the minimizer of the Huber loss", slope=slope, **info)
    else:
        ctx.count("minimizers")
    ctx.nontrivial(("minimizer", name, case.signature()))
    ctx.sample(dict(kind="minimizer", **info))


def run_case(ctx: Ctx):
    [noise_level, graph_level, graph_level, minimizer][ctx.case % 4](ctx)
