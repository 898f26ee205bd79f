"""Variable types, factor classes and noise models used to drive the library, each with
an independent numpy description.

Residuals of the custom factors are written once, generically over the array namespace,
on flat parameter vectors. They are user code from the library's point of view: what is
being checked is what the library does with them.
"""
import dataclasses
from typing import Any, Callable, Dict, List, NamedTuple, Optional, Tuple

import jax
import jax_dataclasses as jdc
import jaxlie
import numpy as np
from jax import numpy as jnp
from overrides import overrides as _overrides

import jaxfg
from jaxfg.core import FactorBase, RealVectorVariable, VariableBase
from jaxfg.noises import NoiseModelBase

from . import lie

overrides = _overrides(check_signature=False)

# --------------------------------------------------------------------------- variables


@jdc.pytree_dataclass
class PairValue:
    z: Any  # (2,)
    a: Any  # ()


class PairVariable(VariableBase[PairValue]):
    @classmethod
    @overrides
    def get_default_value(cls) -> PairValue:
        return PairValue(z=jnp.array([0.25, -0.5]), a=jnp.array(2.0))


class DictVariable(VariableBase[dict]):
    @classmethod
    @overrides
    def get_default_value(cls) -> dict:
        return {"z": jnp.ones((2, 2)), "a": jnp.array([3.0]), "m": jnp.zeros(2)}


class MatrixVariable(VariableBase[jax.Array]):
    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.arange(6.0).reshape((2, 3))


class VecAVariable(VariableBase[jax.Array]):
    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.array([1.0, 2.0, 3.0])


class VecBVariable(VariableBase[jax.Array]):
    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.array([-1.0, -2.0, -3.0])


def sphere_retract(xp, x, d):
    sgn = xp.where(x[2] >= 0, 1.0, -1.0)
    v = x + sgn * np.array([0.0, 0.0, 1.0])
    H = np.eye(3) - 2.0 * v[:, None] * v[None, :] / (v @ v)
    y = x + H[:, :2] @ d
    return y / xp.sqrt(y @ y)


class SphereVariable(VariableBase[jax.Array]):
    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.array([0.0, 0.6, 0.8])

    @classmethod
    @overrides
    def get_local_parameter_dim(cls) -> int:
        return 2

    @classmethod
    @overrides
    def manifold_retract(cls, x: jax.Array, local_delta: Any) -> jax.Array:
        return sphere_retract(jnp, x, local_delta)


class RigidScaleVariable(VariableBase[dict]):
    """Rotation, position and scale. The local order differs from the storage order."""

    @classmethod
    @overrides
    def get_default_value(cls) -> dict:
        return {"R": jaxlie.SO3.identity(), "p": jnp.zeros(3), "s": jnp.array(1.0)}

    @classmethod
    @overrides
    def get_local_parameter_dim(cls) -> int:
        return 7

    @classmethod
    @overrides
    def manifold_retract(cls, x: dict, local_delta: Any) -> dict:
        return {
            "R": x["R"] @ jaxlie.SO3.exp(local_delta[4:]),
            "p": x["p"] + local_delta[:3],
            "s": x["s"] * jnp.exp(local_delta[3]),
        }


AFF_B = np.array([[1.0, 0.5], [-0.25, 1.0], [0.0, 0.75], [2.0, 0.0]])


class AffineVariable(VariableBase[tuple]):
    """Four parameters, but only moves along two directions."""

    @classmethod
    @overrides
    def get_default_value(cls) -> tuple:
        return (jnp.array([1.0, -1.0]), jnp.array([0.5, 0.0]))

    @classmethod
    @overrides
    def get_local_parameter_dim(cls) -> int:
        return 2

    @classmethod
    @overrides
    def manifold_retract(cls, x: tuple, local_delta: Any) -> tuple:
        step = AFF_B @ local_delta
        return (x[0] + step[:2], x[1] + step[2:])


class PositiveVariable(VariableBase[jax.Array]):
    """As many local coordinates as parameters, yet moving by multiplication."""

    @classmethod
    @overrides
    def get_default_value(cls) -> jax.Array:
        return jnp.array([1.0, 2.0, 0.5])

    @classmethod
    @overrides
    def manifold_retract(cls, x: jax.Array, local_delta: Any) -> jax.Array:
        return x * jnp.exp(local_delta)


class MirrorVariable(VariableBase[tuple]):
    """Local coordinates run in the opposite order and direction of the storage. One leaf
    has no axes."""

    @classmethod
    @overrides
    def get_default_value(cls) -> tuple:
        return (jnp.array(4.0), jnp.array([1.0, -3.0]))

    @classmethod
    @overrides
    def manifold_retract(cls, x: tuple, local_delta: Any) -> tuple:
        return (x[0] - local_delta[2], x[1] - local_delta[1::-1])


def _namesakes():
    """Two types with the same name and dimensions, as if from different modules."""

    class LandmarkVariable(VariableBase[jax.Array]):
        @classmethod
        @overrides
        def get_default_value(cls) -> jax.Array:
            return jnp.array([0.5, 1.5, 2.5])

    first = LandmarkVariable

    class LandmarkVariable(VariableBase[dict]):
        @classmethod
        @overrides
        def get_default_value(cls) -> dict:
            return {"bearing": jnp.array([-0.5, 0.5]), "depth": jnp.array(4.0)}

        @classmethod
        @overrides
        def manifold_retract(cls, x: dict, local_delta: Any) -> dict:
            return {"bearing": x["bearing"] + 2.0 * local_delta[:2], "depth": x["depth"] + local_delta[2]}

    return first, LandmarkVariable


NamesakeA, NamesakeB = _namesakes()


class VecSubVariable(RealVectorVariable[2]):
    """A real vector type of its own."""


class SE2SubVariable(jaxfg.geometry.SE2Variable):
    """Same group as SE2Variable, but a type of its own."""


@dataclasses.dataclass(frozen=True)
class VarSpec:
    name: str
    cls: type
    pdim: int
    ldim: int
    rand: Callable  # (rng, scale) -> flat
    to_value: Callable  # flat -> value
    from_value: Callable  # value -> flat (numpy)
    jflat: Callable  # value -> flat (jax)
    retract: Callable  # (flat, delta) -> flat
    default: Any  # flat
    canon: Callable = staticmethod(lambda f: np.asarray(f, float))
    on_manifold: Callable = staticmethod(lambda f: 0.0)  # violation magnitude
    group: Any = None
    hint: str = "array"


def _euclid(name, cls, n, default, to_value=jnp.asarray, from_value=None, jflat=None, hint="array"):
    return VarSpec(
        name, cls, n, n,
        rand=lambda rng, s=1.0: rng.normal(size=n) * s,
        to_value=to_value,
        from_value=from_value or (lambda v: np.asarray(v, float).reshape(-1)),
        jflat=jflat or (lambda v: v.reshape(-1)),
        retract=lambda f, d: np.asarray(f, float) + d,
        default=np.asarray(default, float),
        hint=hint,
    )


def _rand_group(g):
    def rand(rng, s=1.0):
        d = rng.normal(size=g.ldim) * s
        # Keep rotation angles away from the half-turn.
        rot = {"SO2": slice(0, 1), "SE2": slice(2, 3), "SO3": slice(0, 3), "SE3": slice(3, 6)}[g.name]
        n = np.linalg.norm(d[rot])
        if n > 2.5:
            d[rot] *= 2.5 / n
        return g.normalize(g.exp(d))

    return rand


def _lie(name, cls, g, jl):
    attr = {"SO2": "unit_complex", "SE2": "unit_complex_xy", "SO3": "wxyz", "SE3": "wxyz_xyz"}[g.name]
    return VarSpec(
        name, cls, g.pdim, g.ldim,
        rand=_rand_group(g),
        to_value=lambda f: jl(jnp.asarray(f)),
        from_value=lambda v: np.asarray(getattr(v, attr), float),
        jflat=lambda v: getattr(v, attr),
        retract=lambda f, d: g.mul(f, g.exp(d)),
        default=g.identity(),
        canon=g.canon,
        on_manifold=g.rot_norm_error,
        group=g,
        hint="lie",
    )


SPECS: Dict[str, VarSpec] = {}


def _add(s):
    SPECS[s.name] = s


for _n in (1, 2, 3, 5):
    _add(_euclid(f"R{_n}", RealVectorVariable[_n], _n, np.zeros(_n)))
G = jaxfg.geometry
_add(_lie("SO2", G.SO2Variable, lie.SO2, jaxlie.SO2))
_add(_lie("SE2", G.SE2Variable, lie.SE2, jaxlie.SE2))
_add(_lie("SO3", G.SO3Variable, lie.SO3, jaxlie.SO3))
_add(_lie("SE3", G.SE3Variable, lie.SE3, jaxlie.SE3))
_add(_lie("SE2Sub", SE2SubVariable, lie.SE2, jaxlie.SE2))
_add(_euclid("VecA", VecAVariable, 3, [1, 2, 3]))
_add(_euclid("VecB", VecBVariable, 3, [-1, -2, -3]))
_add(
    _euclid(
        "Pair", PairVariable, 3, [0.25, -0.5, 2.0],
        to_value=lambda f: PairValue(z=jnp.asarray(f[:2]), a=jnp.asarray(f[2])),
        from_value=lambda v: np.concatenate([np.asarray(v.z, float), [float(v.a)]]),
        jflat=lambda v: jnp.concatenate([v.z, v.a[None]]),
        hint="pair",
    )
)
# JAX orders dictionaries by key: a, m, z.
_add(
    _euclid(
        "Dict", DictVariable, 7, [3, 0, 0, 1, 1, 1, 1],
        to_value=lambda f: {"a": jnp.asarray(f[:1]), "m": jnp.asarray(f[1:3]), "z": jnp.asarray(f[3:]).reshape((2, 2))},
        from_value=lambda v: np.concatenate([np.asarray(v["a"], float), np.asarray(v["m"], float), np.asarray(v["z"], float).ravel()]),
        jflat=lambda v: jnp.concatenate([v["a"], v["m"], v["z"].reshape(-1)]),
        hint="dict",
    )
)
_add(
    _euclid(
        "Matrix", MatrixVariable, 6, np.arange(6.0),
        to_value=lambda f: jnp.asarray(f).reshape((2, 3)),
    )
)
_add(
    VarSpec(
        "Sphere", SphereVariable, 3, 2,
        rand=lambda rng, s=1.0: (lambda v: v / np.linalg.norm(v))(rng.normal(size=3)),
        to_value=jnp.asarray,
        from_value=lambda v: np.asarray(v, float),
        jflat=lambda v: v,
        retract=lambda f, d: sphere_retract(np, np.asarray(f, float), np.asarray(d, float)),
        default=np.array([0.0, 0.6, 0.8]),
        on_manifold=lambda f: abs(np.linalg.norm(f) - 1),
    )
)
_add(
    VarSpec(
        "RigidScale", RigidScaleVariable, 8, 7,
        rand=lambda rng, s=1.0: np.concatenate([_rand_group(lie.SO3)(rng, s), rng.normal(size=3) * s, [rng.uniform(0.5, 2.0)]]),
        to_value=lambda f: {"R": jaxlie.SO3(jnp.asarray(f[:4])), "p": jnp.asarray(f[4:7]), "s": jnp.asarray(f[7])},
        from_value=lambda v: np.concatenate([np.asarray(v["R"].wxyz, float), np.asarray(v["p"], float), [float(v["s"])]]),
        jflat=lambda v: jnp.concatenate([v["R"].wxyz, v["p"], v["s"][None]]),
        retract=lambda f, d: np.concatenate([lie.SO3.mul(f[:4], lie.SO3.exp(d[4:])), f[4:7] + d[:3], [f[7] * np.exp(d[3])]]),
        default=np.array([1.0, 0, 0, 0, 0, 0, 0, 1]),
        canon=lambda f: np.concatenate([np.outer(f[:4], f[:4]).ravel(), f[4:]]),
        on_manifold=lambda f: abs(np.linalg.norm(f[:4]) - 1),
        hint="dict",
    )
)
_add(
    VarSpec(
        "Affine", AffineVariable, 4, 2,
        rand=lambda rng, s=1.0: rng.normal(size=4) * s,
        to_value=lambda f: (jnp.asarray(f[:2]), jnp.asarray(f[2:])),
        from_value=lambda v: np.concatenate([np.asarray(v[0], float), np.asarray(v[1], float)]),
        jflat=lambda v: jnp.concatenate([v[0], v[1]]),
        retract=lambda f, d: np.asarray(f, float) + AFF_B @ d,
        default=np.array([1.0, -1.0, 0.5, 0.0]),
        hint="tuple",
    )
)

_add(
    VarSpec(
        "Positive", PositiveVariable, 3, 3,
        rand=lambda rng, s=1.0: np.exp(rng.normal(size=3) * min(s, 0.7)),
        to_value=jnp.asarray,
        from_value=lambda v: np.asarray(v, float),
        jflat=lambda v: v,
        retract=lambda f, d: np.asarray(f, float) * np.exp(d),
        default=np.array([1.0, 2.0, 0.5]),
    )
)
_add(
    VarSpec(
        "Mirror", MirrorVariable, 3, 3,
        rand=lambda rng, s=1.0: rng.normal(size=3) * s,
        to_value=lambda f: (jnp.asarray(f[0]), jnp.asarray(f[1:])),
        from_value=lambda v: np.concatenate([[float(v[0])], np.asarray(v[1], float)]),
        jflat=lambda v: jnp.concatenate([v[0][None], v[1]]),
        retract=lambda f, d: np.asarray(f, float) - np.asarray(d, float)[::-1],
        default=np.array([4.0, 1.0, -3.0]),
        hint="tuple",
    )
)
_add(_euclid("VecSub", VecSubVariable, 2, np.zeros(2)))
_add(_euclid("NameA", NamesakeA, 3, [0.5, 1.5, 2.5]))
_add(
    VarSpec(
        "NameB", NamesakeB, 3, 3,
        rand=lambda rng, s=1.0: rng.normal(size=3) * s,
        to_value=lambda f: {"bearing": jnp.asarray(f[:2]), "depth": jnp.asarray(f[2])},
        from_value=lambda v: np.concatenate([np.asarray(v["bearing"], float), [float(v["depth"])]]),
        jflat=lambda v: jnp.concatenate([v["bearing"], v["depth"][None]]),
        retract=lambda f, d: np.asarray(f, float) + np.array([2.0, 2.0, 1.0]) * d,
        default=np.array([-0.5, 0.5, 4.0]),
        hint="dict",
    )
)

LIE_NAMES = ["SO2", "SE2", "SO3", "SE3"]
EUCLID_NAMES = ["R1", "R2", "R3", "R5", "VecA", "VecB", "VecSub", "NameA", "Pair", "Dict", "Matrix"]
ARRAY_NAMES = ["R1", "R2", "R3", "R5", "VecA", "VecB", "VecSub", "NameA"]
SPEC_FROM_CLS = {s.cls: s for s in SPECS.values()}


def spec_of(variable) -> VarSpec:
    return SPEC_FROM_CLS[type(variable)]


# ----------------------------------------------------------------------- noise models


@jdc.pytree_dataclass
class TransposedNoise(NoiseModelBase):
    """A user-defined noise model: stores the transpose of the square-root precision."""

    WT: Any

    @overrides
    def get_residual_dim(self) -> int:
        return self.WT.shape[-1]

    @overrides
    def whiten_residual_vector(self, residual_vector: Any) -> Any:
        return self.WT.T @ residual_vector

    @overrides
    def whiten_jacobian(self, jacobian: Any, residual_vector: Any) -> Any:
        return self.WT.T @ jacobian


@dataclasses.dataclass
class RefNoise:
    kind: str
    W: np.ndarray
    deltas: Tuple[float, ...] = ()  # Huber thresholds, innermost first

    def whiten(self, r):
        r = self.W @ r
        for d in self.deltas:
            n = np.linalg.norm(r)
            if n >= d:
                r = r * np.sqrt(d / n)
        return r


def rand_W(rng, n, cond=3.0):
    Q1, _ = np.linalg.qr(rng.normal(size=(n, n)))
    Q2, _ = np.linalg.qr(rng.normal(size=(n, n)))
    s = np.exp(rng.uniform(-np.log(cond), np.log(cond), size=n) / 2)
    return Q1 @ np.diag(s) @ Q2.T


def make_noise(rng, kind, n, scale=1.0):
    """Returns a library noise model and its numpy description."""
    N = jaxfg.noises
    as_array = jnp.asarray if rng.random() < 0.5 else np.asarray
    if kind == "gauss":
        W = rand_W(rng, n) * scale
        return N.Gaussian(as_array(W)), RefNoise(kind, W)
    if kind == "gausstril":
        W = np.tril(rand_W(rng, n)) + np.diag(rng.uniform(0.5, 1.0, n))
        W = W * scale
        return N.Gaussian(as_array(W)), RefNoise(kind, W)
    if kind == "gausscov":
        L = rand_W(rng, n) / scale
        cov = L @ L.T
        return N.Gaussian.make_from_covariance(as_array(cov)), RefNoise(kind, np.linalg.inv(np.linalg.cholesky(cov)))
    if kind == "diag":
        d = rng.uniform(0.4, 2.0, n) * np.where(rng.random(n) < 0.2, -1, 1) * scale
        return N.DiagonalGaussian(as_array(d)), RefNoise(kind, np.diag(d))
    if kind == "diagcov":
        c = rng.uniform(0.3, 3.0, n) / scale**2
        arg = c.tolist() if rng.random() < 0.3 else as_array(c)
        return N.DiagonalGaussian.make_from_covariance(arg), RefNoise(kind, np.diag(1 / np.sqrt(c)))
    if kind == "custom":
        W = rand_W(rng, n) * scale
        return TransposedNoise(as_array(W.T)), RefNoise(kind, W)
    if kind.startswith("huber"):
        # "huber" wraps any Gaussian model, "huber:diag" a specific one.
        _, _, wrapped = kind.partition(":")
        wrapped = wrapped or ["gauss", "diag", "gausscov", "diagcov"][rng.integers(4)]
        inner, ref = make_noise(rng, wrapped, n, scale)
        kind = "huber"
        delta = float(np.exp(rng.uniform(np.log(0.3), np.log(4.0))))
        return N.HuberWrapper(wrapped=inner, delta=delta), RefNoise(kind, ref.W, (delta,))
    raise ValueError(kind)


GAUSS_KINDS = ["gauss", "gausstril", "gausscov", "diag", "diagcov"]

# ----------------------------------------------------------------------------- factors


def _sum_affine(xp, Ms, b, flats):
    r = -xp.asarray(b)
    for M, f in zip(Ms, flats):
        r = r + xp.asarray(M) @ f
    return r


@jdc.pytree_dataclass
class LinearFactor(FactorBase[Tuple[jax.Array, ...]]):
    Ms: Tuple[Any, ...]
    b: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array, ...]) -> jax.Array:
        return _sum_affine(jnp, self.Ms, self.b, variable_values)


@jdc.pytree_dataclass
class LinearTwinFactor(LinearFactor):
    """Same fields as its parent, different residual: must never be stacked with it."""

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array, ...]) -> jax.Array:
        return 0.5 * _sum_affine(jnp, self.Ms, self.b, variable_values) - 0.125


def any_residual(xp, Ms, b, flats, power, mode):
    s = _sum_affine(xp, Ms, b, flats)
    if mode == "tanh":
        s = s + 0.5 * xp.tanh(s)
    elif mode == "sin":
        s = s + 0.3 * xp.sin(2 * s)
    return s + 0.1 * s**power


@jdc.pytree_dataclass
class AnyFactor(FactorBase[Tuple[object, ...]]):
    """Smooth nonlinear factor over variables of any types."""

    Ms: Tuple[Any, ...]
    b: Any
    power: jdc.Static[int]
    mode: jdc.Static[str]

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[object, ...]) -> jax.Array:
        flats = [spec_of(v).jflat(x) for v, x in zip(self.variables, variable_values)]
        return any_residual(jnp, self.Ms, self.b, flats, self.power, self.mode)


def rot2(xp, f):
    n = xp.sqrt(f[0] ** 2 + f[1] ** 2)
    c, s = f[0] / n, f[1] / n
    return xp.stack([xp.stack([c, -s]), xp.stack([s, c])])


def rot3(xp, q):
    q = q / xp.sqrt(q @ q)
    w, x, y, z = q[0], q[1], q[2], q[3]
    return xp.stack(
        [
            xp.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)]),
            xp.stack([2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)]),
            xp.stack([2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]),
        ]
    )


class PoseLandmark(NamedTuple):
    pose: jaxlie.SE2
    landmark: jax.Array


class LandmarkPose(NamedTuple):
    landmark: jax.Array
    pose: jaxlie.SE2


def landmark_residual(xp, z, pose, l):
    return rot2(xp, pose).T @ (l - pose[2:]) - xp.asarray(z)


@jdc.pytree_dataclass
class PoseLandmarkFactor(FactorBase[PoseLandmark]):
    z: Any

    @overrides
    def compute_residual_vector(self, variable_values: PoseLandmark) -> jax.Array:
        return landmark_residual(jnp, self.z, variable_values.pose.unit_complex_xy, variable_values.landmark)


@jdc.pytree_dataclass
class LandmarkPoseFactor(FactorBase[LandmarkPose]):
    z: Any

    @overrides
    def compute_residual_vector(self, variable_values: LandmarkPose) -> jax.Array:
        return 2.0 * landmark_residual(jnp, self.z, variable_values.pose.unit_complex_xy, variable_values.landmark)


def point_residual(xp, z, T, p):
    y = rot3(xp, T[:4]).T @ (p - T[4:])
    return xp.concatenate([y - xp.asarray(z), xp.sqrt(1.0 + y @ y)[None]])


@jdc.pytree_dataclass
class SE3PointFactor(FactorBase[Tuple[jaxlie.SE3, jax.Array]]):
    z: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jaxlie.SE3, jax.Array]) -> jax.Array:
        T, p = variable_values
        return point_residual(jnp, self.z, T.wxyz_xyz, p)


def rigid_residual(xp, z, A, B):
    """Similarity transforms A and B acting on a fixed point."""
    pt = xp.asarray(z)
    ya = A[7] * (rot3(xp, A[:4]) @ pt) + A[4:7]
    yb = B[7] * (rot3(xp, B[:4]).T @ (ya - B[4:7]))
    return yb - pt


@jdc.pytree_dataclass
class RigidScaleFactor(FactorBase[Tuple[dict, dict]]):
    z: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[dict, dict]) -> jax.Array:
        s = SPECS["RigidScale"]
        return rigid_residual(jnp, self.z, s.jflat(variable_values[0]), s.jflat(variable_values[1]))


def analytic_residual(xp, M, b, x, y):
    return xp.asarray(M) @ (x * y) + xp.sin(x) - y**2 * 0.25 - xp.asarray(b)


@jdc.pytree_dataclass
class AnalyticFactor(FactorBase[Tuple[jax.Array, jax.Array]]):
    """Supplies its own derivative. Autodiff through the residual would give zeros."""

    M: Any
    b: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array, jax.Array]) -> jax.Array:
        x, y = (jax.lax.stop_gradient(v) for v in variable_values)
        return analytic_residual(jnp, self.M, self.b, x, y)

    @overrides
    def compute_residual_jacobians(self, variable_values: Tuple[jax.Array, jax.Array]) -> Tuple[jax.Array, ...]:
        x, y = variable_values
        return (
            self.M * y[None, :] + jnp.diag(jnp.cos(x)),
            self.M * x[None, :] - jnp.diag(0.5 * y),
        )


@jdc.pytree_dataclass
class ScalarFieldFactor(FactorBase[Tuple[jax.Array]]):
    """Parameters are Python numbers rather than arrays."""

    gain: float
    offset: int

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array]) -> jax.Array:
        (x,) = variable_values
        return self.gain * x + self.offset


class PairMatrix(NamedTuple):
    pair: PairValue
    matrix: jax.Array


def pair_matrix_residual(xp, c, pair, matrix):
    Mx = matrix.reshape((2, 3))
    return Mx @ xp.asarray(c) * pair[2] - pair[:2] + xp.sin(Mx[:, 0])


@jdc.pytree_dataclass
class PairMatrixFactor(FactorBase[PairMatrix]):
    c: Any

    @overrides
    def compute_residual_vector(self, variable_values: PairMatrix) -> jax.Array:
        p = variable_values.pair
        assert p.z.shape == (2,) and p.a.shape == () and variable_values.matrix.shape == (2, 3)
        return pair_matrix_residual(jnp, self.c, SPECS["Pair"].jflat(p), variable_values.matrix.reshape(-1))


def shape_residual(xp, K, x):
    """Depends on how the entries of K are arranged, not just on their values."""
    return xp.stack([(K.sum(axis=0) ** 2).sum() + x[0], K.shape[0] * x[-1] + K.reshape(-1)[1]])


@jdc.pytree_dataclass
class ShapeFactor(FactorBase[Tuple[jax.Array]]):
    K: Any

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array]) -> jax.Array:
        return shape_residual(jnp, self.K, variable_values[0])


# Strongly nonlinear factors over one vector, for solver histories with rejected steps.


def hard_residual(xp, kind, M, b, x):
    if kind == "rosen":
        d = xp.asarray(b)
        return xp.stack([d[0] * (x[1] - x[0] ** 2), d[1] - x[0]])
    s = xp.asarray(M) @ x
    if kind == "exp":
        return xp.exp(2.0 * s) - xp.asarray(b)
    if kind == "log":  # NaN for negative arguments
        return xp.log(s) - xp.asarray(b)
    if kind == "range":
        d = x[None, :] - xp.asarray(M)
        return xp.sqrt((d**2).sum(axis=1) + 0.05) - xp.asarray(b)
    if kind == "quartic":
        return s**2 - xp.asarray(b)
    raise ValueError(kind)


@jdc.pytree_dataclass
class HardFactor(FactorBase[Tuple[jax.Array]]):
    M: Any
    b: Any
    kind: jdc.Static[str]

    @overrides
    def compute_residual_vector(self, variable_values: Tuple[jax.Array]) -> jax.Array:
        (x,) = variable_values
        return hard_residual(jnp, self.kind, self.M, self.b, x)


KINDS = ["prior", "between", "linear", "lineartwin", "any", "analytic", "scalarfield", "poselandmark", "landmarkpose",
         "se3point", "rigidscale", "pairmatrix", "shape"]


@dataclasses.dataclass
class RefFactor:
    kind: str
    vidx: Tuple[int, ...]
    fn: Callable  # (*flats) -> residual
    noise: RefNoise
    dim: int
    linear: Optional[Tuple] = None  # (Ms, b) of linear factors

    def residual(self, flats):
        return self.fn(*[flats[i] for i in self.vidx])

    def whitened(self, flats):
        return self.noise.whiten(self.residual(flats))


@dataclasses.dataclass
class Template:
    """A factor kind with fixed variable types, dimensions and static settings."""

    kind: str
    types: Tuple[str, ...]
    dim: int
    noise: str
    static: Tuple = ()


def make_template(rng, types_available: List[str], noise_kinds: List[str], kinds=None, max_arity=3) -> Optional[Template]:
    avail = set(types_available)
    opts = []

    def ok(kind):
        return kinds is None or kind in kinds

    lies = [t for t in types_available if SPECS[t].group is not None]
    arrays = [t for t in types_available if t in ARRAY_NAMES]
    if lies and ok("prior"):
        opts.append("prior")
    if lies and ok("between"):
        opts.append("between")
    if arrays:
        opts += [k for k in ("linear", "lineartwin", "analytic", "scalarfield", "shape") if ok(k)]
    if "R2" in avail and "SE2" in avail:
        opts += [k for k in ("poselandmark", "landmarkpose") if ok(k)]
    if "SE3" in avail and avail & {"R3", "VecA", "VecB"}:
        opts += [k for k in ("se3point",) if ok(k)]
    if "RigidScale" in avail and ok("rigidscale"):
        opts.append("rigidscale")
    if {"Pair", "Matrix"} <= avail and ok("pairmatrix"):
        opts.append("pairmatrix")
    if ok("any"):
        opts += ["any", "any"]
    if not opts:
        return None
    kind = opts[rng.integers(len(opts))]
    pick = lambda seq: seq[rng.integers(len(seq))]
    noise = pick(noise_kinds)
    if kind == "prior":
        t = pick(lies)
        return Template(kind, (t,), SPECS[t].ldim, noise)
    if kind == "between":
        t = pick(lies)
        return Template(kind, (t, t), SPECS[t].ldim, noise)
    if kind in ("linear", "lineartwin"):
        k = int(rng.integers(1, max_arity + 1))
        return Template(kind, tuple(pick(arrays) for _ in range(k)), int(rng.integers(1, 5)), noise)
    if kind == "analytic":
        t = pick(arrays)
        same = [u for u in arrays if SPECS[u].pdim == SPECS[t].pdim]
        return Template(kind, (t, pick(same)), SPECS[t].pdim, noise)
    if kind == "scalarfield":
        t = pick(arrays)
        return Template(kind, (t,), SPECS[t].pdim, noise)
    if kind == "shape":
        return Template(kind, (pick(arrays),), 2, noise)
    if kind == "poselandmark":
        return Template(kind, ("SE2", "R2"), 2, noise)
    if kind == "landmarkpose":
        return Template(kind, ("R2", "SE2"), 2, noise)
    if kind == "se3point":
        return Template(kind, ("SE3", pick(sorted(avail & {"R3", "VecA", "VecB"}))), 4, noise)
    if kind == "rigidscale":
        return Template(kind, ("RigidScale", "RigidScale"), 3, noise)
    if kind == "pairmatrix":
        return Template(kind, ("Pair", "Matrix"), 2, noise)
    if kind == "any":
        k = int(rng.integers(1, max_arity + 1))
        return Template(
            kind, tuple(pick(types_available) for _ in range(k)), int(rng.integers(1, 5)), noise,
            (int(rng.integers(2, 4)), pick(["tanh", "sin", "none"])),
        )
    raise ValueError(kind)


def instantiate(rng, t: Template, variables, vidx, noise_scale=1.0, truth=None, meas_noise=0.0):
    """Build a library factor and its reference from a template.

    With `truth` (flat values of all variables), measurements are set such that the
    residual at the truth is `meas_noise` times a random vector; otherwise measurements
    are random.
    """
    noise, rnoise = make_noise(rng, t.noise, t.dim, noise_scale)
    vs = tuple(variables[i] for i in vidx)
    specs = [SPECS[n] for n in t.types]
    as_array = jnp.asarray if rng.random() < 0.3 else np.asarray
    at_truth = None if truth is None else [truth[i] for i in vidx]
    eps = rng.normal(size=t.dim) * meas_noise
    lin = None
    if t.kind == "prior":
        g = specs[0].group
        mu = specs[0].rand(rng, 0.5) if truth is None else g.normalize(g.mul(at_truth[0], g.exp(eps)))
        f = jaxfg.geometry.PriorFactor.make(vs[0], specs[0].to_value(mu), noise)
        fn = lambda x: g.log(g.mul(g.inv(x), mu))
    elif t.kind == "between":
        g = specs[0].group
        if truth is None:
            m = specs[0].rand(rng, 0.5)
        else:
            m = g.normalize(g.mul(g.mul(g.inv(at_truth[0]), at_truth[1]), g.exp(eps)))
        f = jaxfg.geometry.BetweenFactor.make(vs[0], vs[1], specs[0].to_value(m), noise)
        fn = lambda a, b: g.log(g.mul(g.inv(g.mul(g.inv(a), b)), m))
    elif t.kind in ("linear", "lineartwin", "any"):
        Ms = [rng.normal(size=(t.dim, s.pdim)) / np.sqrt(s.pdim) for s in specs]
        b = rng.normal(size=t.dim)
        if truth is None and rng.random() < 0.15:
            # Integer parameters, next to factors that have fractional ones.
            Ms, b = [np.round(2 * M) for M in Ms], np.round(2 * b)
            as_array = lambda x: np.asarray(x).astype(int)
        if truth is not None:
            if t.kind in ("linear", "any"):
                b = sum(M @ x for M, x in zip(Ms, at_truth)) - eps
            else:
                b = sum(M @ x for M, x in zip(Ms, at_truth)) - 0.25 - 2 * eps
        if t.kind == "linear":
            f = LinearFactor(variables=vs, noise_model=noise, Ms=tuple(map(as_array, Ms)), b=as_array(b))
            fn = lambda *x: _sum_affine(np, Ms, b, x)
            lin = (Ms, b)
        elif t.kind == "lineartwin":
            f = LinearTwinFactor(variables=vs, noise_model=noise, Ms=tuple(map(as_array, Ms)), b=as_array(b))
            fn = lambda *x: 0.5 * _sum_affine(np, Ms, b, x) - 0.125
            lin = ([0.5 * M for M in Ms], 0.5 * b + 0.125)
        else:
            power, mode = t.static
            f = AnyFactor(variables=vs, noise_model=noise, Ms=tuple(map(as_array, Ms)), b=as_array(b), power=power, mode=mode)
            fn = lambda *x: any_residual(np, Ms, b, x, power, mode)
    elif t.kind == "analytic":
        M = rng.normal(size=(t.dim, t.dim))
        b = rng.normal(size=t.dim)
        if truth is not None:
            b = analytic_residual(np, M, np.zeros(t.dim), *at_truth) - eps
        f = AnalyticFactor(variables=vs, noise_model=noise, M=as_array(M), b=as_array(b))
        fn = lambda x, y: analytic_residual(np, M, b, x, y)
    elif t.kind == "shape":
        # Shapes with the same number of entries, fixed by the variable.
        K = rng.normal(size=[(2, 3), (3, 2), (6, 1), (1, 6)][vidx[0] % 4])
        f = ShapeFactor(variables=vs, noise_model=noise, K=as_array(K))
        fn = lambda x: shape_residual(np, K, x)
    elif t.kind == "scalarfield":
        gain, off = float(rng.uniform(0.5, 2)), int(rng.integers(-3, 4))
        if rng.random() < 0.3:
            gain = int(rng.integers(1, 3))
        elif rng.random() < 0.3:
            off = off + 0.5
        f = ScalarFieldFactor(variables=vs, noise_model=noise, gain=gain, offset=off)
        fn = lambda x: gain * np.asarray(x) + off
        lin = ([gain * np.eye(t.dim)], -off * np.ones(t.dim))
    elif t.kind in ("poselandmark", "landmarkpose"):
        z = rng.normal(size=2)
        if t.kind == "poselandmark":
            if truth is not None:
                z = landmark_residual(np, np.zeros(2), at_truth[0], at_truth[1]) - eps
            f = PoseLandmarkFactor(variables=vs, noise_model=noise, z=as_array(z))
            fn = lambda T, l: landmark_residual(np, z, T, l)
        else:
            if truth is not None:
                z = landmark_residual(np, np.zeros(2), at_truth[1], at_truth[0]) - eps
            f = LandmarkPoseFactor(variables=vs, noise_model=noise, z=as_array(z))
            fn = lambda l, T: 2.0 * landmark_residual(np, z, T, l)
    elif t.kind == "se3point":
        z = rng.normal(size=3)
        f = SE3PointFactor(variables=vs, noise_model=noise, z=as_array(z))
        fn = lambda T, p: point_residual(np, z, T, p)
    elif t.kind == "rigidscale":
        z = rng.normal(size=3)
        f = RigidScaleFactor(variables=vs, noise_model=noise, z=as_array(z))
        fn = lambda A, B: rigid_residual(np, z, A, B)
    elif t.kind == "hard":
        (hard,) = t.static
        n = specs[0].pdim
        M = np.eye(t.dim, n) + 0.2 * rng.normal(size=(t.dim, n))
        b = rng.normal(size=t.dim)
        if hard == "rosen":
            M, b = np.zeros(1), np.array([rng.uniform(2, 10), rng.uniform(-1, 2)])
        elif hard == "exp":
            b = rng.uniform(0.2, 3, size=t.dim)
        elif hard == "log":
            M = np.abs(M)
        elif hard == "range":
            M, b = rng.normal(size=(t.dim, n)) * 2, rng.uniform(0.5, 2, size=t.dim)
        elif hard == "quartic":
            b = rng.uniform(0, 1, size=t.dim)
        f = HardFactor(variables=vs, noise_model=noise, M=as_array(M), b=as_array(b), kind=hard)
        fn = lambda x: hard_residual(np, hard, M, b, np.asarray(x, float))
    elif t.kind == "pairmatrix":
        c = rng.normal(size=3)
        f = PairMatrixFactor(variables=vs, noise_model=noise, c=as_array(c))
        fn = lambda p, m: pair_matrix_residual(np, c, p, m)
    else:
        raise ValueError(t.kind)
    return f, RefFactor(t.kind, tuple(vidx), fn, rnoise, t.dim, lin)
