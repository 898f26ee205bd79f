"""Damping and trust-radius adaptation over iteration histories."""
import numpy as np
from jaxfg.core import StackedFactorGraph

from .. import kink, probes, trace
from ..core import Ctx
from .c07 import gen_policy


def gen_cfg(rng, name):
    cfg = dict(cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0,
               step_quality_min=float([1e-3, 0.05, 0.3, 0.8][int(rng.integers(4))]))
    if name == "lm":
        cfg.update(lambda_initial=float(10 ** rng.uniform(-7, 2)), lambda_factor=float(rng.uniform(1.2, 10)))
        kind = int(rng.integers(3))
        if kind == 0:
            cfg.update(lambda_min=cfg["lambda_initial"] * float(rng.uniform(0.5, 20)), lambda_max=1e10)
        elif kind == 1:
            cfg.update(lambda_min=1e-9, lambda_max=cfg["lambda_initial"] * float(rng.uniform(1, 30)))
    else:
        cfg.update(radius_initial=float(10 ** rng.uniform(-2, 2)))
    return cfg


def check_lm(ctx, t):
    cfg = dict(lambda_initial=5e-4, lambda_factor=2.0, lambda_min=1e-5, lambda_max=1e10)
    cfg.update(t.cfg)
    want = cfg["lambda_initial"]
    hist = ""
    for k in range(t.n):
        got = t.subs[k].lambd
        ctx.check(abs(got - want) <= 1e-9 * want, "damping of the subproblem", iteration=k, got=got, want=want, cfg=cfg,
                  history=hist, sequence=[s.lambd for s in t.subs])
        ctx.count("damping_values")
        if t.changed(k):
            want = want / cfg["lambda_factor"]
            hist += "A"
        else:
            if not np.all(t.subs[k].x == t.subs[k].x) or np.abs(t.subs[k].x).max() > 1e-14:
                grown = want * cfg["lambda_factor"]
                want = max(cfg["lambda_min"], min(grown, cfg["lambda_max"]))
                hist += "R" if want == grown else "B"
                ctx.count("bounded" if want != grown else "unbounded")
            else:
                break  # A step too small to tell whether it was taken.
    return hist


def check_dogleg(ctx, t):
    rep = trace.Replay(t)
    radius = t.cfg["radius_initial"]
    hist = ""
    for k in range(t.n):
        ctx.check(t.subs[k].lambd == 0.0, "dogleg subproblem is damped", iteration=k)
        if not rep.trusted(k):
            break
        info = rep.step(k, radius)
        if info.branch == "faulty":
            hist += "n"
            break
        if info.branch_margin < 1e-6 or not np.all(np.isfinite(info.step)):
            break
        where = dict(iteration=k, radius=radius, branch=info.branch, rho=info.rho, cfg=t.cfg, history=hist)
        if t.changed(k):
            step_norm = np.linalg.norm(info.step)
            ok = trace.same_values(t.case, t.iterates[k + 1], info.proposed, 1e-5 * max(1e-3, min(1.0, step_norm)))
            ctx.check(ok, f"step is not the dogleg step ({info.branch}) at the current radius", before=t.iterates[k],
                      after=t.iterates[k + 1], want=info.proposed, **where)
            ctx.count(f"steps_{info.branch}")
            g = -info.J.T @ info.r
            if info.branch == "interpolated" and g @ t.subs[k].x < (g @ g) ** 2 / np.sum((info.J @ g) ** 2):
                ctx.count("steps_bent_back")
        if np.isfinite(info.rho):
            if min(abs(info.rho - 0.25), abs(info.rho - 0.75)) < max(info.rho_margin, 1e-9):
                ctx.count("ambiguous")
                break
        hist += {"gauss-newton": "G", "steepest": "S", "interpolated": "I"}[info.branch]
        if not info.rho >= 0.25:
            radius = radius / 2
            hist += "-"
            ctx.count("radius_shrunk")
        elif info.rho > 0.75:
            radius = max(radius, 3 * np.linalg.norm(info.step))
            hist += "+"
            ctx.count("radius_grown")
        else:
            ctx.count("radius_kept")
    return hist


def sideways_policy(rng, start):
    """Steps that are not aligned with the gradient, so that the dogleg path bends back."""
    ks = {k: (float(rng.uniform(-0.5, 0.95)), float(rng.uniform(3, 8))) for k in range(40)}
    seed = int(rng.integers(2**31))

    def policy(k, A, g, lambd):
        a = g * ((g @ g) / np.sum((A @ g) ** 2))
        n = np.random.default_rng(seed + k).normal(size=len(g))
        n = n - a * (a @ n) / (a @ a)
        return ks[k][0] * a + ks[k][1] * np.linalg.norm(a) * n / np.linalg.norm(n)

    return policy


def run_kink(ctx):
    """Tiny radii and bounded damping, from long runs of rejections."""
    rng = ctx.rng
    for name in ("lm", "dogleg"):
        k = kink.Kink(rng)
        for rep in range(2):
            cfg = kink.gen_cfg(rng, name)
            K = int(rng.integers(20, 50))
            ctx.note(family="kink", solver=name, cfg=cfg, K=K, c=k.c, s=k.s, b=k.b, start=k.x0)
            t = trace.collect(ctx, k.case, k.graph, k.start, None, name, cfg, probes.direct_policy(eps=1e-9), K)
            xs, state, hist = k.replay(name, cfg, K)
            for i in range(min(len(hist), t.n)):
                info = dict(iteration=i, history=hist, want=state[: i + 2], cfg=cfg)
                if name == "lm":
                    ctx.check(abs(t.subs[i].lambd - state[i]) <= 1e-9 * state[i], "damping of the subproblem", got=t.subs[i].lambd, **info)
                    ctx.count("damping_values")
                got, want = float(t.iterates[i + 1][0][0]), xs[i + 1]
                ctx.check(abs(got - want) <= 1e-6 * abs(want - xs[i]) + 1e-12, "step is not the one of the current damping or radius",
                          got=got, position=want, before=xs[i], **info)
                ctx.count("kink_steps")
            if name == "dogleg" and len(state) > 1:
                ctx.count("tiny_radii", sum(r < 1e-4 for r in state))
            ctx.nontrivial(("kink", name, hist, round(k.c, 6)))


def run_case(ctx: Ctx):
    rng = ctx.rng
    if ctx.case % 10 == 7:
        return run_kink(ctx)
    family = trace.FAMILIES[ctx.case % len(trace.FAMILIES)]
    name = ["dogleg", "lm"][(ctx.case // len(trace.FAMILIES)) % 2]
    case = trace.gen_problem(rng, family)
    graph = StackedFactorGraph.make(case.factors)
    for rep in range(14):
        flats = trace.start_point(rng, case, family)
        order = list(rng.permutation(len(case.variables)))
        K = int(rng.integers(4, 16))
        cfg = gen_cfg(rng, name)
        label, policy = gen_policy(rng, K)
        if name == "dogleg":
            label, policy = "honest", probes.direct_policy(eps=1e-12)
            if rng.random() < 0.2:
                label, policy = "faulty", probes.direct_policy(eps=1e-12, faults={int(rng.integers(3)): np.nan})
            elif case.ldim > 1 and rng.random() < 0.25:
                label, policy = "sideways", sideways_policy(rng, flats)
                with np.errstate(all="ignore"):
                    r, J = case.ref_residual(flats), case.ref_jacobian(flats)
                    g = J.T @ r
                    length = float(np.linalg.norm(g) ** 3 / np.sum((J @ g) ** 2))
                if np.isfinite(length) and length > 0:
                    cfg["radius_initial"] = length * float(rng.uniform(1.05, 2.8))
        ctx.note(family=family, solver=name, cfg=cfg, policy=label, K=K, start=flats, graph=case.describe())
        t = trace.collect(ctx, case, graph, flats, order, name, cfg, policy, K)
        hist = check_lm(ctx, t) if name == "lm" else check_dogleg(ctx, t)
        if len(set(hist)) > 1:
            ctx.nontrivial((family, name, label, hist))
        if rep == 0:
            ctx.sample(dict(family=family, solver=name, policy=label, history=hist, cfg=cfg))
