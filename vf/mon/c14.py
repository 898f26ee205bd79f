"""Gaussian noise models and the joint negative log-likelihood."""
import numpy as np
import jax
from jax import numpy as jnp
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import graphs, zoo
from ..core import Ctx

N = jaxfg.noises


def models(ctx):
    """Whitening against the dense square-root precision, for all constructions."""
    rng = ctx.rng
    for _ in range(3):
        n = int(rng.integers(1, 8))
        t = ctx.tol(1e-9, 3e-4)
        r, J = rng.normal(size=n), rng.normal(size=(n, int(rng.integers(1, 7))))
        conv = jnp.asarray if rng.random() < 0.5 else np.asarray
        dt = np.float64 if ctx.x64 else np.float32

        def check(model, P, W, label):
            """P: precision. W: square root if it is determined."""
            ctx.check(model.get_residual_dim() == n, f"{label}: residual dimension")
            wr = np.asarray(model.whiten_residual_vector(conv(r.astype(dt))), float)
            wJ = np.asarray(model.whiten_jacobian(conv(J.astype(dt)), conv(wr.astype(dt))), float)
            ctx.check(wr.shape == (n,) and wJ.shape == J.shape, f"{label}: shapes")
            ctx.close(wr @ wr, r @ P @ r, f"{label}: Mahalanobis distance", t, 0, P=P, r=r)
            ctx.close(wJ.T @ wr, J.T @ P @ r, f"{label}: whitened gradient", 0, t * np.linalg.norm(J) * np.linalg.norm(P) * np.linalg.norm(r), P=P, r=r, J=J)
            ctx.close(wJ.T @ wJ, J.T @ P @ J, f"{label}: whitened information", 0, t * np.linalg.norm(J) ** 2 * np.linalg.norm(P), P=P, J=J)
            if W is not None:
                ctx.close(wr, W @ r, f"{label}: whitened residual", 0, t * np.linalg.norm(W) * np.linalg.norm(r), W=W, r=r)
                ctx.close(wJ, W @ J, f"{label}: whitened Jacobian", 0, t * np.linalg.norm(W) * np.linalg.norm(J), W=W, J=J)
            ctx.count("models")
            return wr, wJ

        W = zoo.rand_W(rng, n) * 10.0 ** rng.uniform(-2, 2)
        check(N.Gaussian(conv(W.astype(dt))), W.T @ W, W, "square-root precision")
        L = zoo.rand_W(rng, n) * 10.0 ** rng.uniform(-2, 2)
        cov = L @ L.T
        model = N.Gaussian.make_from_covariance(conv(cov.astype(dt)))
        check(model, np.linalg.inv(cov), None, "covariance")
        d = rng.uniform(0.3, 3, n) * 10.0 ** rng.uniform(-2, 2) * np.where(rng.random(n) < 0.2, -1, 1)
        a = check(N.DiagonalGaussian(conv(d.astype(dt))), np.diag(d**2), np.diag(d), "diagonal")
        b = check(N.Gaussian(conv(np.diag(d).astype(dt))), np.diag(d**2), np.diag(d), "full model with diagonal matrix")
        ctx.close(a[0], b[0], "diagonal and full model differ", t, 0)
        c = rng.uniform(0.1, 3, n) * 10.0 ** rng.uniform(-3, 3)
        arg = c.tolist() if rng.random() < 0.3 else conv(c.astype(dt))
        check(N.DiagonalGaussian.make_from_covariance(arg), np.diag(1 / c), np.diag(1 / np.sqrt(c)), "diagonal covariance")
        ctx.nontrivial(("model", n, round(float(W[0, 0]), 6)))


def likelihood(ctx):
    rng = ctx.rng
    kinds = ["linear", "any", "lineartwin"] + ctx.tol(["prior", "between"], [])
    types = graphs.gen_types(rng, int(rng.integers(1, 4)), pool=["R1", "R2", "R3", "R5", "SE2", "SO3", "SE3", "VecA"], max_count=3)
    case = graphs.gen_graph(rng, types, n_templates=int(rng.integers(1, 5)), per_template=4, noise_kinds=zoo.GAUSS_KINDS, kinds=kinds)
    graph = StackedFactorGraph.make(case.factors, use_onp=bool(rng.random() < 0.7))
    ctx.note(graph=case.describe())
    for k in range(2):
        flats = case.rand_flats(rng)
        a = case.assignments(flats, list(rng.permutation(len(flats))))
        want, terms = 0.0, 0.0
        for r in case.refs:
            m = r.whitened(flats)
            ld = -2 * np.linalg.slogdet(r.noise.W)[1]
            want += m @ m + ld
            terms += m @ m + abs(ld)
        got = graph.compute_joint_nll(a)
        ctx.check(np.shape(got) == (), "joint NLL is not a scalar")
        ctx.close(got, want, "joint NLL", 0, ctx.tol(1e-9, 2e-4) * (terms + 1), graph=case.describe())
        same = graph.compute_joint_nll(a, include_constants=False) if k else graph.compute_joint_nll(a, False)
        ctx.close(same, got, "joint NLL explicitly without constants", 0, ctx.tol(1e-9, 2e-4) * (terms + 1))
        ctx.count("nll")
    ctx.nontrivial(("nll", case.signature()))
    ctx.sample(case.describe())


def extreme(ctx):
    """Determinants that leave the floating-point range although their logarithm and the
    matrix entries do not."""
    rng = ctx.rng
    n = int(rng.integers(6, 25))
    V = zoo.SPECS["R5"].cls
    exps = ctx.tol([-30, -20, 20, 30], [-6, -4, 4, 6])
    e = float(exps[int(rng.integers(4))])
    count = int(rng.integers(1, 5))
    variables = [V() for _ in range(2)]
    factors, want, terms = [], 0.0, 0.0
    dt = np.float64 if ctx.x64 else np.float32
    x = [rng.normal(size=5) for _ in variables]
    for k in range(count):
        kind = ctx.pick(["full", "diag", "diagcov"])
        d = (10.0**e * rng.uniform(0.5, 2, n)).astype(dt).astype(float)
        M = np.zeros((n, 5))
        b = rng.normal(size=n) / d
        if kind == "full":
            Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
            W = (Q @ np.diag(d)).astype(dt)
            noise, W = N.Gaussian(W), W.astype(float)
        elif kind == "diag":
            noise, W = N.DiagonalGaussian(d.astype(dt)), np.diag(d)
        else:
            c = (1 / d.astype(dt) ** 2).astype(dt)
            if not (np.all(np.isfinite(c)) and np.all(c > np.finfo(dt).tiny)):
                noise, W = N.DiagonalGaussian(d.astype(dt)), np.diag(d)
            else:
                noise, W = N.DiagonalGaussian.make_from_covariance(c), np.diag(1 / np.sqrt(c.astype(float)))
        i = int(rng.integers(2))
        factors.append(zoo.LinearFactor(variables=(variables[i],), noise_model=noise, Ms=(M.astype(dt),), b=b.astype(dt)))
        m = W @ (b.astype(dt).astype(float))
        ld = -2 * np.linalg.slogdet(W)[1]
        want += m @ m + ld
        terms += m @ m + abs(ld)
    used = {f.variables[0] for f in factors}
    graph = StackedFactorGraph.make(factors)
    a = jaxfg.core.VariableAssignments.make_from_dict({v: jnp.asarray(xx) for v, xx in zip(variables, x) if v in used})
    got = float(graph.compute_joint_nll(a))
    ctx.close(got, want, "joint NLL at extreme scales", 0, ctx.tol(1e-8, 1e-3) * (terms + 1), exponent=e, size=n)
    ctx.count("nll_extreme")
    ctx.nontrivial(("extreme", n, e, count, round(want, 3)))


def rejected(ctx):
    rng = ctx.rng
    for kind in ("custom", "huber"):
        v = zoo.SPECS["R3"].cls()
        fs = []
        for k in [kind] + [ctx.pick(zoo.GAUSS_KINDS) for _ in range(2)]:
            t = zoo.Template("linear", ("R3",), int(rng.integers(1, 4)), k)
            fs.append(zoo.instantiate(rng, t, [v], [0])[0])
        fs = [fs[i] for i in rng.permutation(3)]
        graph = StackedFactorGraph.make(fs)
        a = jaxfg.core.VariableAssignments.make_from_defaults([v])
        ctx.must_raise(lambda: float(graph.compute_joint_nll(a)), f"joint NLL with a {kind} noise model")


def run_case(ctx: Ctx):
    kind = ctx.case % 4
    if kind in (0,):
        models(ctx)
    elif kind == 1:
        likelihood(ctx)
    elif kind == 2:
        extreme(ctx)
    else:
        if ctx.case % 16 == 3:
            rejected(ctx)
        likelihood(ctx)
