"""Accept/reject discipline of the trust-region solvers over iteration histories."""
import numpy as np
import jaxfg
from jaxfg.core import StackedFactorGraph

from .. import graphs, kink, probes, trace
from ..core import Ctx, Skip


def gen_policy(rng, K):
    """Honest, stretched and faulty linear solvers. Stretching stays below two, so that
    the linear model always predicts a decrease."""
    scales, faults = {}, {}
    kind = int(rng.integers(4))
    if kind in (1, 3):
        for k in range(K):
            if rng.random() < 0.5:
                scales[k] = float(rng.uniform(0.05, 1.95))
    if kind in (2, 3):
        for k in range(K):
            if rng.random() < 0.25:
                faults[k] = [np.nan, np.inf, -np.inf][int(rng.integers(3))]
    return ["honest", "stretched", "faulty", "mixed"][kind], probes.direct_policy(
        "identity" if rng.random() < 0.5 else "diagonal", eps=1e-9, scales=scales, faults=faults)


def gen_cfg(rng, name):
    cfg = dict(cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0,
               step_quality_min=float([1e-3, 1e-3, 0.1, 0.3, 0.6, 0.9][int(rng.integers(6))]))
    if rng.random() < 0.3:
        cfg.update(cost_tolerance=1e-5, gradient_tolerance=1e-9, parameter_tolerance=1e-7)
    if name == "lm":
        cfg.update(lambda_initial=float(10 ** rng.uniform(-6, 1)), lambda_factor=float(rng.uniform(1.5, 10)))
    else:
        cfg.update(radius_initial=float(10 ** rng.uniform(-1.5, 1.5)))
    return cfg


def check_trace(ctx, t):
    case, rep = t.case, trace.Replay(t)
    qmin = t.cfg["step_quality_min"]
    radius = t.cfg.get("radius_initial")
    kinds = []
    for k in range(t.n):
        sub = t.subs[k]
        where = dict(iteration=k, solver=t.solver_name, cfg=t.cfg)
        # The subproblem is the linearization at the current values.
        ok = rep.trusted(k)
        ctx.check(ok is not None, "subproblem is not the linearization at the current values", subproblem=sub.A.T @ sub.A,
                  gradient=sub.g, want=rep.linearize(k), values=t.iterates[k], **where)
        if k and not t.changed(k - 1):
            ctx.check(np.array_equal(sub.A, t.subs[k - 1].A, equal_nan=True) and np.array_equal(sub.g, t.subs[k - 1].g, equal_nan=True),
                      "a rejected step changed the linearization", **where)
        if not ok:
            break
        info = rep.step(k, radius)
        observed = t.changed(k)
        finite = np.isfinite(info.proposed_cost)
        after = case.ref_cost(t.iterates[k + 1])
        if np.isfinite(info.cost):
            ctx.check(after <= info.cost * (1 + 1e-9) + 1e-12, "cost increased", before=info.cost, after=after, **where)
        if info.branch_margin < 1e-6 or info.branch == "faulty":
            ctx.count("nonfinite", info.branch == "faulty")
            break  # No defined step, or too close to call.
        if not finite:
            ctx.check(not observed, "a step with non-finite cost was taken", **where)
            kinds.append("N")
        elif info.rho_margin > abs(info.rho - qmin) or not np.isfinite(info.rho):
            ctx.count("ambiguous")
            break
        elif info.rho >= qmin:
            ok = trace.same_values(case, t.iterates[k + 1], info.proposed, 1e-6)
            if not ok and t.solver_name == "dogleg" and observed:
                break  # A different step; its length is the subject of C08.
            ctx.check(ok, "a good step was not taken", rho=info.rho, qmin=qmin, before=t.iterates[k], after=t.iterates[k + 1],
                      proposed=info.proposed, **where)
            kinds.append("A")
        else:
            if t.solver_name == "dogleg" and observed and not trace.same_values(case, t.iterates[k + 1], info.proposed, 1e-6):
                break
            ctx.check(not observed, "a bad step was taken", rho=info.rho, qmin=qmin, cost=info.cost,
                      proposed_cost=info.proposed_cost, **where)
            kinds.append("R")
        ctx.count({"A": "accepted", "R": "rejected", "N": "nonfinite"}[kinds[-1]])
        if radius is not None:
            # Follow the documented radius rule; near a threshold the history is unclear.
            if min(abs(info.rho - 0.25), abs(info.rho - 0.75)) < max(info.rho_margin, 1e-9):
                break
            if not info.rho >= 0.25:
                radius = radius / 2
            elif info.rho > 0.75:
                radius = max(radius, 3 * np.linalg.norm(info.step))
    return "".join(kinds)


def run_kink(ctx):
    """Long runs of rejections, down to tiny radii and up to the largest damping."""
    rng = ctx.rng
    for name in ("lm", "dogleg"):
        k = kink.Kink(rng)
        for rep in range(2):
            cfg = kink.gen_cfg(rng, name)
            K = int(rng.integers(20, 50))
            ctx.note(family="kink", solver=name, cfg=cfg, K=K, c=k.c, s=k.s, b=k.b, start=k.x0)
            t = trace.collect(ctx, k.case, k.graph, k.start, None, name, cfg, probes.direct_policy(eps=1e-9), K)
            xs, state, hist = k.replay(name, cfg, K)
            for i in range(t.n):
                before, after = (float(k.residual(t.iterates[j][0][0])) for j in (i, i + 1))
                ctx.check(after <= before * (1 + 1e-12), "cost increased", iteration=i, before=before, after=after)
                if i < len(hist):
                    ctx.check(t.changed(i) == (hist[i] == "A"), "a bad step was taken" if hist[i] == "R" else "a good step was not taken",
                              iteration=i, history=hist, state=state[i])
                    ctx.count("accepted" if hist[i] == "A" else "rejected")
            ctx.count("kinks")
            ctx.nontrivial(("kink", name, hist, round(k.c, 6)))


def run_case(ctx: Ctx):
    rng = ctx.rng
    if ctx.x64 and ctx.case % 10 == 9:
        run_kink(ctx)
    elif ctx.x64 and ctx.case % 5 != 4:
        family = trace.FAMILIES[ctx.case % len(trace.FAMILIES)]
        name = ["lm", "dogleg"][(ctx.case // len(trace.FAMILIES)) % 2]
        case = trace.gen_problem(rng, family)
        graph = StackedFactorGraph.make(case.factors)
        for rep in range(12):
            flats = trace.start_point(rng, case, family)
            order = list(rng.permutation(len(case.variables)))
            K = int(rng.integers(4, 18))
            cfg = gen_cfg(rng, name)
            label, policy = gen_policy(rng, K)
            ctx.note(family=family, solver=name, cfg=cfg, policy=label, K=K, start=flats, graph=case.describe())
            t = trace.collect(ctx, case, graph, flats, order, name, cfg, policy, K)
            kinds = check_trace(ctx, t)
            if "R" in kinds or "N" in kinds:
                ctx.nontrivial((family, name, label, kinds))
            if ctx.case % 5 == 0 and rep == 0:
                ctx.sample(dict(family=family, solver=name, policy=label, history=kinds, cfg=cfg))
    else:
        # Library linear solvers, either precision: the cost along the iterations.
        family = trace.FAMILIES[int(rng.integers(len(trace.FAMILIES)))]
        name = ["lm", "dogleg"][int(rng.integers(2))]
        case = trace.gen_problem(rng, family)
        graph = StackedFactorGraph.make(case.factors)
        linear = [jaxfg.sparse.CholmodSolver(), jaxfg.sparse.ConjugateGradientSolver(tolerance=1e-8 if ctx.x64 else 1e-5)][int(rng.integers(2))]
        for rep in range(4):
            flats = trace.start_point(rng, case, family)
            if not ctx.x64:
                flats = [np.asarray(np.asarray(f, np.float32), float) for f in flats]
            a0 = case.assignments(flats, list(rng.permutation(len(case.variables))))
            cost = case.ref_cost(flats)
            if not np.isfinite(cost):
                continue
            costs = [cost]
            for k in (1, 2, 3, 5, 8, 13, 25):
                out = graph.solve(a0, trace.SOLVERS[name](verbose=False, linear_solver=linear, max_iterations=k))
                vals = case.read(out)
                with np.errstate(all="ignore"):
                    c = case.ref_cost(vals)
                ctx.note(family=family, solver=name, linear=type(linear).__name__, k=k, costs=costs + [c], start=flats)
                ctx.check(np.isfinite(c), "returned values have non-finite cost")
                ctx.check(c <= costs[-1] * (1 + ctx.tol(1e-9, 1e-3)) + ctx.tol(1e-12, 1e-6 + 1e-4 * cost), "cost increased with the iteration limit",
                          costs=costs + [c], limit=k)
                costs.append(c)
                ctx.count("library_solves")
            ctx.nontrivial((family, name, type(linear).__name__, round(cost, 6)))
