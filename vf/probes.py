"""Monitored linear solvers: the solver's public plug-in point is used to watch every
linear subproblem of a run (matrix, right-hand side, damping, iteration number) and to
choose the returned step, without touching the code under test."""
import dataclasses
from typing import Any, Callable, List, Optional

import jax
import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp
from jax.experimental import io_callback
from overrides import overrides as _overrides

from jaxfg.sparse import LinearSubproblemSolverBase

overrides = _overrides(check_signature=False)


@dataclasses.dataclass
class Subproblem:
    A: np.ndarray
    g: np.ndarray
    lambd: float
    iteration: int
    x: np.ndarray


class TooManySubproblems(Exception):
    pass


class Recorder:
    """Collects subproblems; `policy(k, A, g, lambd)` chooses the step of host solves."""

    def __init__(self, policy: Optional[Callable] = None, limit: Optional[int] = None):
        self.subproblems: List[Subproblem] = []
        self.policy = policy
        self.limit = limit
        self.overrun = False

    def __enter__(self):
        global CURRENT
        self.previous = CURRENT
        CURRENT = self
        return self

    def __exit__(self, *exc):
        global CURRENT
        CURRENT = self.previous

    def see(self, shape, values, rows, cols, g, lambd, iteration, x):
        if self.limit is not None and len(self.subproblems) >= self.limit:
            self.overrun = True
            raise TooManySubproblems(f"more than {self.limit} linear subproblems")
        A = np.zeros(shape)
        np.add.at(A, (np.asarray(rows), np.asarray(cols)), np.asarray(values, float))
        g = np.array(g, float)
        if x is None:
            x = self.policy(len(self.subproblems), A, g, float(lambd))
        x = np.array(x, float)
        self.subproblems.append(Subproblem(A, g, float(lambd), int(iteration), x))
        return x


CURRENT: Optional[Recorder] = None


def _see(shape, dtype):
    def host(values, rows, cols, g, lambd, iteration, *x):
        return np.asarray(
            CURRENT.see(shape, values, rows, cols, g, lambd, iteration, x[0] if x else None), dtype
        )

    return host


@jdc.pytree_dataclass
class HostSolver(LinearSubproblemSolverBase):
    """Solves on the host by the current recorder's policy."""

    @overrides
    def solve_subproblem(self, A: Any, ATb: Any, lambd: Any, iteration: Any) -> Any:
        return io_callback(
            _see(tuple(A.shape), ATb.dtype), jax.ShapeDtypeStruct(ATb.shape, ATb.dtype),
            A.values, A.coords.rows, A.coords.cols, ATb, lambd, iteration,
        )


@jdc.pytree_dataclass
class WatchedSolver(LinearSubproblemSolverBase):
    """Passes subproblems through to a library solver and records them."""

    inner: LinearSubproblemSolverBase

    @overrides
    def solve_subproblem(self, A: Any, ATb: Any, lambd: Any, iteration: Any) -> Any:
        x = self.inner.solve_subproblem(A=A, ATb=ATb, lambd=lambd, iteration=iteration)
        return io_callback(
            _see(tuple(A.shape), ATb.dtype), jax.ShapeDtypeStruct(ATb.shape, ATb.dtype),
            A.values, A.coords.rows, A.coords.cols, ATb, lambd, iteration, x,
        )


def direct_policy(damping="identity", eps=0.0, scales=None, faults=None):
    """Damped normal equations, optionally with scaled or faulty steps.

    `scales` maps subproblem number to a step length factor, `faults` to a fill value."""

    def policy(k, A, g, lambd):
        H = A.T @ A
        H = H + (lambd + eps) * (np.eye(len(H)) if damping == "identity" else np.diag(np.diag(H)))
        try:
            x = np.linalg.solve(H, g)
        except np.linalg.LinAlgError:
            x = np.linalg.lstsq(H, g, rcond=None)[0]
        if scales is not None and k in scales:
            x = x * scales[k]
        if faults is not None and k in faults:
            x = x * 0 + faults[k]
        return x

    return policy
