"""Stopping rules over iteration histories."""
import numpy as np
from jaxfg.core import StackedFactorGraph

from .. import kink, probes, trace
from ..core import Ctx
from .c07 import gen_policy


def gen_cfg(rng, name):
    """Enable the criteria separately and together, loosely enough to trigger."""
    pick = lambda s: float(s[int(rng.integers(len(s)))])
    which = int(rng.integers(5))
    cfg = dict(cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0, gradient_tolerance_start_step=10)
    if which in (0, 3):
        cfg["cost_tolerance"] = pick([0.3, 1e-1, 1e-2, 1e-4, 1e-6])
    if which in (1, 3):
        cfg["gradient_tolerance"] = pick([1.0, 1e-1, 1e-2, 1e-4, 1e-6])
        cfg["gradient_tolerance_start_step"] = int([0, 0, 1, 2, 5, 10][int(rng.integers(6))])
    if which in (2, 3):
        cfg["parameter_tolerance"] = pick([0.3, 1e-1, 1e-2, 1e-4, 1e-6])
    if which == 4:
        cfg = {}  # Documented defaults
    if name == "lm":
        cfg.update(lambda_initial=float(10 ** rng.uniform(-6, 0)))
    if name == "dogleg":
        cfg.update(radius_initial=float(10 ** rng.uniform(-1, 1)))
    if name != "gn":
        cfg.update(step_quality_min=float([1e-3, 0.2][int(rng.integers(2))]))
    return cfg


DEFAULTS = dict(cost_tolerance=1e-5, gradient_tolerance=1e-9, gradient_tolerance_start_step=10, parameter_tolerance=1e-7)


def check_trace(ctx, t):
    cfg = dict(DEFAULTS, **t.cfg)
    rep = trace.Replay(t)
    where = dict(solver=t.solver_name, cfg=cfg, limit=t.K, performed=t.n)
    ctx.check(1 <= t.n <= t.K, "number of iterations", **where)
    # Limits below the stopping iteration give the intermediate iterates.
    for k, run in enumerate(t.limited, start=1):
        ctx.check(len(run.subproblems) == k, "iterations performed under a smaller limit", smaller=k, got=len(run.subproblems), **where)
        ok = all(np.array_equal(a.A, b.A, equal_nan=True) and np.array_equal(a.g, b.g, equal_nan=True) and np.array_equal(a.x, b.x, equal_nan=True)
                 for a, b in zip(run.subproblems, t.subs))
        ctx.check(ok, "iterations under a smaller limit differ", smaller=k, **where)
    ctx.check(np.array_equal(t.full.storage, t.storages[t.n], equal_nan=True), "the last iterate is not what is returned", **where)
    if t.solver_name == "gn":
        faulty = [k for k in range(t.n) if not np.all(np.isfinite(t.subs[k].x))]
        if faulty:
            # No comparison with NaN costs and steps holds. The gradient before the first
            # of them may still be small enough.
            early = cfg["gradient_tolerance"] > 0 and faulty[0] >= cfg["gradient_tolerance_start_step"]
            ctx.check(t.n == t.K or early and t.n == faulty[0] + 1, "stopped before the limit without a satisfied criterion", faulty_step=faulty[0], **where)
            ctx.count("faulty_histories")
    radius = cfg.get("radius_initial")
    hist = ""
    for k in range(t.n):
        if not rep.trusted(k):
            return hist + "?"
        info = rep.step(k, radius)
        if info.branch_margin < 1e-6 or info.step is None:
            return hist + "?"
        taken = t.changed(k) or t.solver_name == "gn"
        if radius is not None:
            if taken and not trace.same_values(t.case, t.iterates[k + 1], info.proposed or [], 1e-6):
                return hist + "?"
            if np.isfinite(info.rho) and min(abs(info.rho - 0.25), abs(info.rho - 0.75)) < max(info.rho_margin, 1e-9):
                return hist + "?"
        if not taken and (not np.isfinite(info.rho) or abs(info.rho - cfg["step_quality_min"]) <= info.rho_margin):
            if np.isfinite(info.proposed_cost):
                return hist + "?"
        x = t.storages[k]
        verdicts = {}  # True / False / None (too close to call)

        def judge(name, value, bound, slack):
            if bound == 0 or not np.isfinite(value):
                verdicts[name] = False
            elif abs(value - bound) <= 1e-5 * bound + slack:
                verdicts[name] = None
            else:
                verdicts[name] = bool(value < bound)

        with np.errstate(all="ignore"):
            new_cost = t.case.ref_cost(t.iterates[k + 1]) if taken else info.proposed_cost
            if info.cost == 0 or not np.isfinite(info.cost):
                return hist + "?"
            judge("cost", abs(new_cost - info.cost) / info.cost, cfg["cost_tolerance"],
                  1e-11 + 1e-13 / np.sqrt(info.cost) + 1e-26 / info.cost)
            if k >= cfg["gradient_tolerance_start_step"]:
                moved = t.case.retract(t.iterates[k], t.columns_to_deltas(-info.J.T @ info.r))
                gap = max(np.abs(np.asarray(m) - f).max() for m, f in zip(moved, t.iterates[k]))
                judge("gradient", gap, cfg["gradient_tolerance"], 1e-12 * (1 + np.abs(x).max()) + 1e-7 * gap)
            judge("parameter", float(np.linalg.norm(info.step)),
                  (np.linalg.norm(x) + cfg["parameter_tolerance"]) * cfg["parameter_tolerance"], 1e-14)
        hit = [n for n, v in verdicts.items() if v]
        last = k == t.n - 1
        if taken and hit:
            ctx.check(last, "did not stop although a criterion was satisfied", criteria=hit, iteration=k, **where)
            for n in hit:
                ctx.count(f"stopped_by_{n}")
            return hist + "S"
        if None in verdicts.values() and taken:
            return hist + "?"
        if last:
            ctx.check(t.n == t.K, "stopped before the limit without a satisfied criterion", iteration=k, taken=taken,
                      verdicts=verdicts, **where)
            ctx.count("stopped_by_limit")
            return hist + "L"
        ctx.count("continued")
        if not taken and hit:
            ctx.count("rejected_but_small")
        hist += "A" if taken else "R"
        if radius is not None:
            if not info.rho >= 0.25:
                radius = radius / 2
            elif info.rho > 0.75:
                radius = max(radius, 3 * np.linalg.norm(info.step))
    return hist


def run_kink(ctx):
    """Long runs of rejected steps, which are no reason to stop."""
    rng = ctx.rng
    for name in ("lm", "dogleg"):
        k = kink.Kink(rng)
        for rep in range(2):
            cfg = kink.gen_cfg(rng, name)
            if rep:
                cfg.update(cost_tolerance=1e-3, parameter_tolerance=1e-3)
            K = int(rng.integers(20, 60))
            ctx.note(family="kink", solver=name, cfg=cfg, K=K, c=k.c, s=k.s, b=k.b, start=k.x0)
            xs, state, hist = k.replay(name, cfg, K)
            solver = trace.SOLVERS[name](verbose=False, linear_solver=probes.HostSolver(), max_iterations=K, **cfg)
            run = trace.run_solver(k.case, k.graph, k.case.assignments(k.start), solver, probes.direct_policy(eps=1e-9), K)
            ctx.check(not run.overrun, "more iterations than the limit", limit=K, cfg=cfg)
            quiet = len(hist) - len(hist.lstrip("R"))  # Nothing but rejections
            if quiet == K or cfg["cost_tolerance"] == 0 and len(hist) == K:
                ctx.check(len(run.subproblems) == K, "stopped before the limit without a satisfied criterion", got=len(run.subproblems),
                          limit=K, history=hist, state=state, cfg=cfg)
            else:
                ctx.check(len(run.subproblems) >= min(quiet + 1, K), "stopped after a rejected step", got=len(run.subproblems), rejections=quiet,
                          history=hist, state=state, cfg=cfg)
            ctx.count("rejections_survived", quiet)
            ctx.nontrivial(("kink", name, hist, K, round(k.c, 6)))


def run_case(ctx: Ctx):
    rng = ctx.rng
    if ctx.case % 12 == 11:
        return run_kink(ctx)
    fams = [f for f in trace.FAMILIES]
    family = fams[ctx.case % len(fams)]
    name = ["gn", "lm", "dogleg"][(ctx.case // len(fams)) % 3]
    case = trace.gen_problem(rng, family)
    graph = StackedFactorGraph.make(case.factors)
    for rep in range(14):
        flats = trace.start_point(rng, case, family)
        if name == "gn":
            flats = [s.retract(s.rand(rng, 0.3), np.zeros(s.ldim)) for s in case.specs]
            if family == "log":
                flats = [np.abs(f) + 0.5 for f in flats]
        order = list(rng.permutation(len(case.variables)))
        K = int(rng.integers(1, 22))
        cfg = gen_cfg(rng, name)
        label, policy = "honest", probes.direct_policy(eps=1e-12)
        if name == "gn":
            # Shortened steps make slow histories in which every criterion gets its turn.
            if rng.random() < 0.6:
                s = float(rng.uniform(0.2, 0.9))
                label, policy = "shortened", probes.direct_policy(eps=1e-12, scales={k: s for k in range(40)})
            elif rng.random() < 0.4:
                label, policy = "faulty", probes.direct_policy(eps=1e-12, faults={int(rng.integers(0, 4)): np.nan})
        elif name == "lm" and rng.random() < 0.5:
            label, policy = gen_policy(rng, 40)
        ctx.note(family=family, solver=name, cfg=cfg, policy=label, K=K, start=flats, graph=case.describe())
        t = trace.collect(ctx, case, graph, flats, order, name, cfg, policy, K)
        hist = check_trace(ctx, t)
        if t.n < t.K:
            # A larger limit changes nothing.
            more = trace.collect(ctx, case, graph, flats, order, name, cfg, policy, t.K + 6)
            ctx.check(more.n == t.n and np.array_equal(more.full.storage, t.full.storage, equal_nan=True),
                      "a larger limit changed the result", cfg=cfg, limit=t.K, performed=t.n, larger=more.n)
        ctx.nontrivial((family, name, label, hist, t.n, t.K))
        if rep == 0:
            ctx.sample(dict(family=family, solver=name, policy=label, history=hist, cfg=cfg, limit=t.K, performed=t.n))
