"""A sparse linear graph whose storage has more than 65536 entries, so that every index
has to be wide enough."""
import numpy as np

import jaxfg
from jaxfg.core import RealVectorVariable, VariableAssignments

from . import zoo

DIM, COUNT = 50, 1400


class Big:
    def __init__(self, rng):
        self.V = RealVectorVariable[DIM]
        self.variables = [self.V() for _ in range(COUNT)]
        n = COUNT + 40
        # Every variable is used, the first and last ones together as well.
        self.i = np.concatenate([np.arange(COUNT), rng.integers(0, 60, 40)])
        self.j = np.concatenate([rng.permutation(COUNT), COUNT - 1 - rng.integers(0, 60, 40)])
        self.A = rng.normal(size=(n, 2, DIM)) / np.sqrt(DIM)
        self.b = rng.normal(size=n)
        self.w = rng.uniform(0.5, 2.0, size=n)
        noise = jaxfg.noises.DiagonalGaussian
        self.factors = [
            zoo.LinearFactor(variables=(self.variables[i], self.variables[j]), noise_model=noise(self.w[k : k + 1]),
                             Ms=(self.A[k, :1], self.A[k, 1:]), b=self.b[k : k + 1])
            for k, (i, j) in enumerate(zip(self.i, self.j))
        ]
        # The graph stores variables in the order in which factors mention them.
        self.order = list(dict.fromkeys(v for f in self.factors for v in f.variables))

    def rand(self, rng):
        return rng.normal(size=(COUNT, DIM))

    def assignments(self, x):
        where = {v: k for k, v in enumerate(self.variables)}
        return VariableAssignments.make_from_dict({v: x[where[v]] for v in self.order})

    def residual(self, x):
        r = np.einsum("kd,kd->k", self.A[:, 0], x[self.i]) + np.einsum("kd,kd->k", self.A[:, 1], x[self.j]) - self.b
        return self.w * r
