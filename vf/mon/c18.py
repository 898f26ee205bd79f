"""Prior and between factors against an independent implementation of the groups."""
import numpy as np
import jax
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import graphs, zoo
from ..core import Ctx, Skip

NAMES = zoo.LIE_NAMES + ["SE2Sub"]
ROT = {"SO2": slice(0, 1), "SE2": slice(2, 3), "SO3": slice(0, 3), "SE3": slice(3, 6)}


def unit_noise(n):
    return jaxfg.noises.Gaussian(np.eye(n))


def wild(ctx, g, scale=1.0):
    """Elements with all kinds of rotation angles."""
    rng = ctx.rng
    d = rng.normal(size=g.ldim) * scale
    u = rng.normal(size=d[ROT[g.name]].shape)
    u /= np.linalg.norm(u)
    angle = ctx.pick([0.0, 1e-9, 1e-6, 1e-4, 0.01, 0.1, 0.5, 1.0, 2.0, 2.6, 3.0])
    d[ROT[g.name]] = u * angle * ctx.pick([-1.0, 1.0])
    return g.normalize(g.exp(d))


def allowance(ctx, g, want):
    """jaxlie's logarithms cancel at small angles and near half turns."""
    angle = np.linalg.norm(want[ROT[g.name]])
    size = 1 + np.abs(want).max()
    if ctx.x64:
        return 1e-8 * size if angle > 0.05 and angle < 3.1 else 1e-4 * size
    return 2e-3 * size if angle > 0.1 and angle < 3.0 else 3e-2 * size


def factors(ctx):
    rng = ctx.rng
    for name in NAMES:
        s = zoo.SPECS[name]
        g = s.group
        V = s.cls
        for k in range(4):
            scale = float(10.0 ** rng.uniform(-2, 2))
            x, y, z = wild(ctx, g, scale), wild(ctx, g, scale), wild(ctx, g, scale)
            if k == 0:
                z = g.normalize(g.mul(x, g.exp(10.0 ** rng.uniform(-8, -1) * rng.normal(size=g.ldim))))
            v, w = V(), V()
            if k % 2 == 0:
                f = jaxfg.geometry.PriorFactor.make(variable=v, mu=s.to_value(z), noise_model=unit_noise(g.ldim))
                ctx.check(f.variables == (v,), "prior factor's variables")
                got = f.compute_residual_vector((s.to_value(x),))
                want = g.log(g.mul(g.inv(x), z))
                what = "prior"
            else:
                f = jaxfg.geometry.BetweenFactor.make(
                    variable_T_world_a=v, variable_T_world_b=w, T_a_b=s.to_value(z), noise_model=unit_noise(g.ldim))
                ctx.check(f.variables == (v, w), "between factor's variables")
                a = jaxfg.core.VariableAssignments.make_from_dict({w: s.to_value(y), v: s.to_value(x)})
                got = f.compute_residual_vector(f.get_variable_values_from_assignments(a))
                want = g.log(g.mul(g.inv(g.mul(g.inv(x), y)), z))
                what = "between"
            if np.linalg.norm(want[ROT[g.name]]) > 3.1:
                continue
            ctx.close(got, want, f"{what} residual on {name}", 0, allowance(ctx, g, want) * (1 + 0.1 * scale), x=x, y=y, z=z)
            # Matching poses.
            m = g.normalize(g.mul(g.inv(x), y))
            if what == "prior":
                zero = jaxfg.geometry.PriorFactor.make(v, s.to_value(x), unit_noise(g.ldim)).compute_residual_vector((s.to_value(x),))
                moved = g.normalize(g.mul(x, g.exp(0.05 * _unit(rng, g.ldim))))
                off = jaxfg.geometry.PriorFactor.make(v, s.to_value(moved), unit_noise(g.ldim)).compute_residual_vector((s.to_value(x),))
            else:
                vals = f.build_variable_value_tuple((s.to_value(x), s.to_value(y)))
                zero = jaxfg.geometry.BetweenFactor.make(v, w, s.to_value(m), unit_noise(g.ldim)).compute_residual_vector(vals)
                moved = g.normalize(g.mul(m, g.exp(0.05 * _unit(rng, g.ldim))))
                off = jaxfg.geometry.BetweenFactor.make(v, w, s.to_value(moved), unit_noise(g.ldim)).compute_residual_vector(vals)
            big = 1 + max(np.abs(x).max(), np.abs(y).max())
            ctx.close(zero, np.zeros(g.ldim), f"{what} residual of matching poses on {name}", 0, ctx.tol(1e-6, 2e-3) * big, x=x, y=y)
            ctx.check(ctx.tol(0.049, 0.02) - ctx.tol(0, 2e-3) * big < np.linalg.norm(np.asarray(off, float)) < 0.051 + ctx.tol(1e-4, 2e-3) * big,
                      f"{what} residual of poses 0.05 apart on {name}", got=off, x=x, y=y)
            ctx.count(f"residuals_{what}")
        ctx.nontrivial((name, round(float(x[0]), 6), round(float(z[-1]), 6)))


def _unit(rng, n):
    u = rng.normal(size=n)
    return u / np.linalg.norm(u)


def gauge(ctx):
    """Moving all poses by a common transform on the left."""
    rng = ctx.rng
    name = NAMES[ctx.case // 4 % len(NAMES)]
    s = zoo.SPECS[name]
    g = s.group
    n = int(rng.integers(2, 6))
    case = graphs.gen_graph(rng, [name] * n, n_templates=1, per_template=1, noise_kinds=zoo.GAUSS_KINDS, kinds=["between"])
    case.factors[:], case.refs[:] = [], []
    for i in range(n):
        for j in range(n):
            if i != j and (abs(i - j) == 1 or rng.random() < 0.3):
                t = zoo.Template("between", (name, name), s.ldim, ctx.pick(zoo.GAUSS_KINDS))
                f, r = zoo.instantiate(rng, t, case.variables, [i, j])
                case.factors.append(f), case.refs.append(r)
    graph = StackedFactorGraph.make(case.factors)
    ctx.note(type=name, graph=case.describe())
    for _ in range(20):
        flats = case.rand_flats(rng, 0.5)
        if case.tame(flats):
            break
    else:
        raise Skip("angles")
    base = np.asarray(graph.compute_whitened_residual_vector(case.assignments(flats)), float)
    for k in range(2):
        T = wild(ctx, g, 2.0)
        moved = [g.normalize(g.mul(T, f)) for f in flats]
        r = np.asarray(graph.compute_whitened_residual_vector(case.assignments(moved, list(rng.permutation(n)))), float)
        ctx.close(r, base, "between residuals change under a common transform", 0, ctx.tol(1e-6, 3e-2) * (1 + np.abs(base).max()), transform=T)
        # A transform on the right is not a change of frame; nor is one of a single pose.
        i = int(rng.integers(n))
        alone = list(flats)
        alone[i] = g.normalize(g.mul(flats[i], g.exp(0.3 * _unit(rng, g.ldim))))
        if case.tame(alone):
            r = np.asarray(graph.compute_whitened_residual_vector(case.assignments(alone)), float)
            ctx.check(np.abs(r - base).max() > 1e-3, "between residuals do not depend on one of the poses", pose=i)
        ctx.count("gauge")
    ctx.nontrivial(("gauge", name, case.signature()))


def recover(ctx):
    """Consistent pose graphs are solved to the poses that generated them."""
    rng = ctx.rng
    name = NAMES[ctx.case // 4 % len(NAMES)]
    s = zoo.SPECS[name]
    g = s.group
    n = int(rng.integers(2, 9))
    truth = [s.rand(rng, 1.0) for _ in range(n)]
    variables = [s.cls() for _ in range(n)]
    factors, refs = [], []

    def add(kind, vidx):
        t = zoo.Template(kind, (name,) * len(vidx), s.ldim, ctx.pick(zoo.GAUSS_KINDS))
        f, r = zoo.instantiate(rng, t, variables, vidx, 1.0, truth, 0.0)
        factors.append(f), refs.append(r)

    add("prior", [int(rng.integers(n))])
    for i in range(1, n):
        j = int(rng.integers(i))
        add("between", [i, j] if rng.random() < 0.5 else [j, i])
    for _ in range(int(rng.integers(0, n))):
        i, j = (int(k) for k in rng.permutation(n)[:2])
        add("between", [i, j])
    order = rng.permutation(len(factors))
    factors, refs = [factors[i] for i in order], [refs[i] for i in order]
    case = graphs.GraphCase([name] * n, variables, factors, refs, [])
    graph = StackedFactorGraph.make(factors)
    start = case.retract(truth, [0.1 * rng.normal(size=s.ldim) for _ in range(n)])
    start = [g.normalize(x) for x in start]
    S = jaxfg.solvers
    kw = dict(verbose=False, max_iterations=40, cost_tolerance=0.0, gradient_tolerance=1e-14, parameter_tolerance=1e-14)
    which = ctx.pick(["gn", "lm", "dogleg", "fixed"])
    solver = {"gn": lambda: S.GaussNewtonSolver(**kw), "lm": lambda: S.LevenbergMarquardtSolver(**kw), "dogleg": lambda: S.DoglegSolver(**kw),
              "fixed": lambda: S.FixedIterationGaussNewtonSolver(verbose=False, iterations=15, unroll=False)}[which]()
    ctx.note(graph=case.describe(), solver=which)
    want, ok = graphs.gauss_newton(case, start)
    if not ok or case.ref_cost(want) > 1e-15:
        raise Skip("reference does not converge")
    out = case.read(graph.solve(case.assignments(start, list(rng.permutation(n))), solver))
    dev = graphs.canon_deviation(case, out, truth)
    ctx.check(dev <= ctx.tol(1e-4, 3e-2), f"{which} does not recover the poses of a consistent graph", deviation=dev, type=name)
    ctx.count("recovered")
    ctx.nontrivial(("recover", name, which, case.signature()))
    ctx.sample(dict(kind="recover", solver=which, **case.describe()))


def run_case(ctx: Ctx):
    [factors, gauge, recover, recover][ctx.case % 4](ctx)
