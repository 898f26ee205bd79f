"""Iteration histories of the nonlinear solvers, observed from outside.

The k-th iterate is what the solver returns with an iteration limit of k; the linear
subproblems are seen by a monitored linear solver. A reference model then replays the
history from the documented rules.
"""
import dataclasses
import warnings
from typing import Any, Dict, List, Optional

import jax
import numpy as np

import jaxfg
from jaxfg.core import StackedFactorGraph

from . import graphs, probes, zoo

SOLVERS = {
    "gn": jaxfg.solvers.GaussNewtonSolver,
    "lm": jaxfg.solvers.LevenbergMarquardtSolver,
    "dogleg": jaxfg.solvers.DoglegSolver,
}

FAMILIES = ["rosen", "exp", "log", "range", "quartic", "pose2", "pose3", "mix", "linear", "sphere"]


def gen_problem(rng, family):
    """A small problem and a start point from which full steps often fail."""
    noise = ["gauss", "diag", "diagcov"]
    pick = lambda s: s[int(rng.integers(len(s)))]
    plan = []
    if family in ("rosen", "exp", "log", "range", "quartic"):
        n = 2 if family == "rosen" else int(pick([1, 2, 3]))
        types = [f"R{n}"] * int(rng.integers(1, 3))
        for i in range(len(types)):
            plan.append((zoo.Template("hard", (types[i],), 2 if family == "rosen" else max(n, 2) + int(family == "range"), pick(noise), (family,)), [i]))
        if len(types) == 2:
            plan.append((zoo.Template("linear", (types[0], types[1]), n, pick(noise)), [0, 1]))
        if family == "exp":
            plan.append((zoo.Template("linear", (types[0],), n, pick(noise)), [0]))
    elif family == "pose2":
        types = ["SE2"] * int(rng.integers(2, 4)) + ["R2"] * int(rng.integers(0, 2))
        plan.append((zoo.Template("prior", ("SE2",), 3, pick(noise)), [0]))
        for i in range(1, types.count("SE2")):
            plan.append((zoo.Template("between", ("SE2", "SE2"), 3, pick(noise)), [i - 1, i]))
        plan.append((zoo.Template("between", ("SE2", "SE2"), 3, pick(noise)), [types.count("SE2") - 1, 0]))
        for i in range(types.count("SE2"), len(types)):
            plan.append((zoo.Template("poselandmark", ("SE2", "R2"), 2, pick(noise)), [0, i]))
            plan.append((zoo.Template("landmarkpose", ("R2", "SE2"), 2, pick(noise)), [i, 1]))
    elif family == "pose3":
        types = [pick(["SO3", "SE3"])] * 2
        d = zoo.SPECS[types[0]].ldim
        plan.append((zoo.Template("prior", (types[0],), d, pick(noise)), [0]))
        plan.append((zoo.Template("between", (types[0],) * 2, d, pick(noise)), [0, 1]))
        plan.append((zoo.Template("prior", (types[0],), d, pick(noise)), [1]))
    elif family == "mix":
        types = ["R2", "SE2", "R3"]
        plan.append((zoo.Template("hard", ("R2",), 2, pick(noise), ("rosen",)), [0]))
        plan.append((zoo.Template("prior", ("SE2",), 3, pick(noise)), [1]))
        plan.append((zoo.Template("any", ("R3", "SE2"), 4, pick(noise), (3, "sin")), [2, 1]))
        plan.append((zoo.Template("poselandmark", ("SE2", "R2"), 2, pick(noise)), [1, 0]))
    elif family == "linear":
        types = ["R2", "R3"]
        plan.append((zoo.Template("linear", ("R2",), 3, pick(noise)), [0]))
        plan.append((zoo.Template("linear", ("R2", "R3"), 4, pick(noise)), [0, 1]))
    elif family == "sphere":
        types = ["Sphere", "Affine", "Sphere"]
        plan.append((zoo.Template("any", ("Sphere", "Affine"), 4, pick(noise), (3, "sin")), [0, 1]))
        plan.append((zoo.Template("any", ("Sphere",), 3, pick(noise), (2, "tanh")), [2]))
        plan.append((zoo.Template("any", ("Sphere", "Sphere"), 3, pick(noise), (2, "none")), [0, 2]))
    else:
        raise ValueError(family)
    perm = rng.permutation(len(types))  # New position of each variable
    inv = np.argsort(perm)
    types2 = [types[i] for i in inv]
    plan = [(t, [int(perm[i]) for i in v]) for t, v in plan]
    plan = [plan[i] for i in rng.permutation(len(plan))]
    variables = [zoo.SPECS[t].cls() for t in types2]
    fr = [zoo.instantiate(rng, t, variables, v) for t, v in plan]
    case = graphs.GraphCase(types2, variables, [f for f, _ in fr], [r for _, r in fr], [t for t, _ in plan])
    return case


def start_point(rng, case, family):
    scale = {"exp": 1.2, "log": 1.0, "pose2": 1.0, "pose3": 0.9, "rosen": 1.5}.get(family, 1.0)
    flats = case.rand_flats(rng, scale)
    if family == "log":
        flats = [np.abs(f) + 0.3 for f in flats]
    return flats


@dataclasses.dataclass
class Run:
    flats: List[np.ndarray]
    storage: np.ndarray
    subproblems: List[probes.Subproblem]
    overrun: bool = False


def run_solver(case, graph, a0, solver, policy, limit):
    with probes.Recorder(policy, limit=limit) as rec:
        try:
            out = graph.solve(a0, solver)
            storage = np.asarray(out.storage)
        except Exception:
            if rec.overrun:
                return Run([], np.zeros(0), rec.subproblems, True)
            raise
    return Run(case.read(out), storage, rec.subproblems)


@dataclasses.dataclass
class Trace:
    case: Any
    columns: List[int]
    solver_name: str
    cfg: Dict[str, Any]
    K: int
    iterates: List[List[np.ndarray]]  # x_0 .. x_n
    storages: List[np.ndarray]
    subs: List[probes.Subproblem]
    full: Run
    limited: List[Run]

    @property
    def n(self):
        return len(self.subs)

    def columns_to_deltas(self, step):
        return [step[c : c + s.ldim] for c, s in zip(self.columns, self.case.specs)]

    def changed(self, k):
        """Whether iteration k moved the values."""
        return not np.array_equal(self.storages[k], self.storages[k + 1], equal_nan=True)


def collect(ctx, case, graph, flats0, order, solver_name, cfg, policy, K, linear_solver=None):
    """Run with limit K, then once per smaller limit to see every iterate."""
    a0 = case.assignments(flats0, order)
    make = lambda k: SOLVERS[solver_name](
        verbose=False, linear_solver=linear_solver or probes.HostSolver(), max_iterations=k, **cfg
    )
    full = run_solver(case, graph, a0, make(K), policy, K)
    if full.overrun:
        ctx.fail(f"{solver_name}: more iterations than the limit of {K}", cfg=cfg, graph=case.describe())
    iterates, storages, limited = [case.read(a0)], [np.asarray(a0.storage)], []
    for k in range(1, len(full.subproblems) + 1):
        run = run_solver(case, graph, a0, make(k), policy, k)
        if run.overrun:
            ctx.fail(f"{solver_name}: more iterations than the limit of {k}", cfg=cfg, graph=case.describe())
        limited.append(run)
        iterates.append(run.flats)
        storages.append(run.storage)
    ctx.count("iterations_observed", len(full.subproblems))
    ctx.count("histories")
    return Trace(case, case.columns(graph.local_storage_layout), solver_name, cfg, K, iterates, storages,
                 full.subproblems, full, limited)


def dogleg_step(A, g, gn, radius):
    """Point on the dogleg path at the trust radius. Also names the branch; the margin
    says how far the decision is from flipping."""
    n_gn = np.linalg.norm(gn)
    with np.errstate(all="ignore"):
        alpha = (g @ g) / np.sum((A @ g) ** 2)
        a = alpha * g
        n_sd = np.linalg.norm(a)
    if not np.isfinite(n_gn):
        return None, "faulty", 1.0
    if n_gn <= radius:
        return gn, "gauss-newton", abs(n_gn - radius) / max(radius, 1e-300)
    margin = min(abs(n_gn - radius), abs(n_sd - radius)) / max(radius, 1e-300)
    if n_sd >= radius:
        return a * (radius / n_sd), "steepest", margin
    d = gn - a
    # |a + t d| = radius, 0 <= t <= 1
    qa, qb, qc = d @ d, 2 * a @ d, a @ a - radius**2
    t = (-qb + np.sqrt(qb * qb - 4 * qa * qc)) / (2 * qa)
    return a + t * d, "interpolated", margin


@dataclasses.dataclass
class StepInfo:
    cost: float
    r: np.ndarray
    J: np.ndarray
    step: Optional[np.ndarray]
    branch: str
    branch_margin: float
    proposed: Optional[List[np.ndarray]]
    proposed_cost: float
    rho: float
    rho_margin: float


class Replay:
    """Reference evaluation of the steps of a trace."""

    def __init__(self, trace: Trace):
        self.t = trace
        self._cache = (None, None)

    def linearize(self, k):
        key = self.t.storages[k].tobytes()
        if self._cache[0] != key:
            x = self.t.iterates[k]
            with np.errstate(all="ignore"):
                r = self.t.case.ref_residual(x)
                J = self.t.case.ref_jacobian(x, self.t.columns)
            self._cache = (key, (r, J))
        return self._cache[1]

    def trusted(self, k):
        """Whether the reference linearization agrees with the observed subproblem.

        False where the residual is not smooth around the values (an angle at the cut of
        the logarithm) or not finite. None for a mismatch at a smooth point."""
        sub = self.t.subs[k]
        r, J = self.linearize(k)
        if not (np.all(np.isfinite(r)) and np.all(np.isfinite(J))):
            return False

        def same(X, Y, scale):
            return np.all(np.isfinite(X)) and np.abs(X - Y).max() <= 1e-5 * np.abs(Y).max() + 1e-7 * scale

        def matches(J):
            S = 1 + np.abs(J).max()
            return same(sub.A.T @ sub.A, J.T @ J, S * S) and same(sub.g, -J.T @ r, S * (1 + np.abs(r).max()))

        if matches(J):
            return True
        if not self.t.case.tame(self.t.iterates[k]):
            return False
        # Strong curvature: differentiate with a smaller step.
        with np.errstate(all="ignore"):
            J2 = self.t.case.ref_jacobian(self.t.iterates[k], self.t.columns, h=2e-4)
        if matches(J2):
            self._cache = (self._cache[0], (r, J2))
            return True
        return None if np.all(np.isfinite(J2)) and np.abs(J2 - J).max() <= 1e-3 * (1 + np.abs(J2).max()) else False

    def step(self, k, radius=None) -> StepInfo:
        t = self.t
        x, sub = t.iterates[k], t.subs[k]
        with np.errstate(all="ignore"):
            r, J = self.linearize(k)
            cost = float(r @ r)
            step, branch, bm = sub.x, "direct", 1.0
            if t.solver_name == "dogleg":
                step, branch, bm = dogleg_step(J, -J.T @ r, sub.x, radius)
            if step is None or not np.all(np.isfinite(step)):
                return StepInfo(cost, r, J, step, branch, bm, None, np.nan, np.nan, 0.0)
            prop = t.case.retract(x, t.columns_to_deltas(step))
            pc = t.case.ref_residual(prop)
            pc = float(pc @ pc)
            pred = float(np.sum((J @ step + r) ** 2)) - cost
            rho = (pc - cost) / pred if pred != 0 else np.nan
            rounding = 1e-11 * cost + 1e-13 * np.sqrt(cost) + 1e-26
            margin = 1e-6 * max(1.0, abs(rho)) + rounding / abs(pred) if pred != 0 else np.inf
        return StepInfo(cost, r, J, step, branch, bm, prop, pc, rho, margin)


def same_values(case, a, b, tol):
    for s, x, y in zip(case.specs, a, b):
        cx, cy = s.canon(x), s.canon(y)
        if not np.all(np.isfinite(cx)) or np.abs(cx - cy).max() > tol * (1 + np.abs(cy).max()):
            return False
    return True
