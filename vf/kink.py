"""One-dimensional problems with a kink: r(x) = s |x - c| + b.

The linearization points across the kink, so that every step longer than twice the
distance to it is rejected however small it is. Solvers go through long runs of
rejections and into tiny radii and large damping, all of which can be followed by hand.
"""
from typing import Any, Tuple

import jax
import jax_dataclasses as jdc
import numpy as np
from jax import numpy as jnp
from jaxfg.core import FactorBase, StackedFactorGraph
from jaxfg.noises import DiagonalGaussian
from overrides import overrides as _overrides

from . import graphs, zoo

overrides = _overrides(check_signature=False)


@jdc.pytree_dataclass
class KinkFactor(FactorBase[Tuple[jax.Array]]):
    c: Any
    s: Any
    b: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array]) -> jax.Array:
        (x,) = variable_values
        u = x - self.c
        return jnp.where(u >= 0, self.s * u, -self.s * u) + self.b


class Kink:
    def __init__(self, rng):
        self.c, self.s, self.b = float(rng.normal()), float(rng.uniform(0.5, 2)), float(rng.uniform(0.5, 2))
        self.x0 = self.c + float(rng.choice([-1, 1])) * float(10 ** rng.uniform(-10, -2))
        v = zoo.SPECS["R1"].cls()
        f = KinkFactor(variables=(v,), noise_model=DiagonalGaussian(np.ones(1)), c=np.array([self.c]), s=np.array([self.s]),
                       b=np.array([self.b]))
        ref = zoo.RefFactor("kink", (0,), lambda x: self.residual(x), zoo.RefNoise("diag", np.eye(1)), 1)
        self.case = graphs.GraphCase(["R1"], [v], [f], [ref], [None])
        self.graph = StackedFactorGraph.make([f])
        self.start = [np.array([self.x0])]

    def residual(self, x):
        return self.s * np.abs(x - self.c) + self.b

    def derivative(self, x):
        return self.s if x - self.c >= 0 else -self.s

    def replay(self, name, cfg, K, damping=None):
        """Positions x_0 .. x_K, damping values or radii, and the accept/reject history,
        by the documented rules with zero tolerances. Stops where rounding decides."""
        x, hist = self.x0, ""
        xs, state = [x], [cfg.get("lambda_initial", cfg.get("radius_initial"))]
        f = lambda x: float(self.residual(x)) ** 2
        for _ in range(K):
            J, r = self.derivative(x), float(self.residual(x))
            if name == "lm":
                step = -J * r / (J * J + state[-1] + 1e-9)
            else:
                gn = -J * r / (J * J + 1e-9)
                step = gn if abs(gn) <= state[-1] else -np.sign(J) * state[-1]
            new = x + step
            pred = (J * step + r) ** 2 - r * r
            rho = (f(new) - f(x)) / pred
            err = 1e-12 / abs(pred) + 1e-7
            near = [cfg["step_quality_min"]] + ([0.25, 0.75] if name == "dogleg" else [])
            if min(abs(rho - q) for q in near) <= err or abs(new - self.c) < 1e-13:
                break
            ok = rho >= cfg["step_quality_min"]
            if name == "lm":
                d = state[-1] / cfg["lambda_factor"] if ok else max(cfg["lambda_min"], min(state[-1] * cfg["lambda_factor"], cfg["lambda_max"]))
                state.append(d)
            else:
                state.append(state[-1] / 2 if rho < 0.25 else max(state[-1], 3 * abs(step)) if rho > 0.75 else state[-1])
            x = new if ok else x
            xs.append(x)
            hist += "A" if ok else "R"
        return xs, state, hist


def gen_cfg(rng, name):
    cfg = dict(cost_tolerance=0.0, gradient_tolerance=0.0, parameter_tolerance=0.0,
               step_quality_min=float([1e-3, 0.1, 0.3][int(rng.integers(3))]))
    if name == "lm":
        top = float(10 ** rng.uniform(-3, 12))
        cfg.update(lambda_initial=float(min(top, 10 ** rng.uniform(-6, 1))), lambda_factor=float(rng.uniform(2, 10)), lambda_min=1e-5,
                   lambda_max=top)
    else:
        cfg.update(radius_initial=float(10 ** rng.uniform(-8, 1)))
    return cfg
