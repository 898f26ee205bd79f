"""Random factor graphs together with their reference description."""
import dataclasses
from typing import Any, Dict, List

import jax
import numpy as np
from scipy.optimize import linear_sum_assignment

import jaxfg
from jax import numpy as jnp

from . import zoo


@dataclasses.dataclass
class GraphCase:
    types: List[str]
    variables: List[Any]
    factors: List[Any]
    refs: List[zoo.RefFactor]
    templates: List[zoo.Template]

    @property
    def specs(self):
        return [zoo.SPECS[t] for t in self.types]

    def rand_flats(self, rng, scale=1.0):
        return [s.rand(rng, scale) for s in self.specs]

    def tame_flats(self, rng, scale=1.0, tries=40):
        """Random values at which the logarithms are accurate, if there are any."""
        for _ in range(tries):
            flats = self.rand_flats(rng, scale)
            if self.tame(flats):
                return flats
        return None

    def assignments(self, flats, order=None):
        """Assignments with the given storage order."""
        order = range(len(self.variables)) if order is None else order
        return jaxfg.core.VariableAssignments.make_from_dict(
            {self.variables[i]: self.specs[i].to_value(flats[i]) for i in order}
        )

    def read(self, assignments):
        """Values per variable, read through the public accessor."""
        return [s.from_value(assignments.get_value(v)) for s, v in zip(self.specs, self.variables)]

    def retract(self, flats, deltas):
        return [s.retract(f, d) for s, f, d in zip(self.specs, flats, deltas)]

    # Reference quantities, in factor order.
    def ref_residual(self, flats):
        return np.concatenate([r.whitened(flats) for r in self.refs])

    def ref_cost(self, flats):
        r = self.ref_residual(flats)
        return float(r @ r)

    def columns(self, layout):
        """Start column of each variable in a layout (public field)."""
        return [layout.index_from_variable[v] for v in self.variables]

    def default_columns(self):
        out, n = [], 0
        for s in self.specs:
            out.append(n)
            n += s.ldim
        return out

    @property
    def ldim(self):
        return sum(s.ldim for s in self.specs)

    def ref_jacobian(self, flats, columns=None, h=2e-3):
        """Dense Jacobian of the (unweighted by Huber) whitened residual by numeric
        differentiation through the reference retraction."""
        columns = self.default_columns() if columns is None else columns
        rows = []
        for r in self.refs:
            block = np.zeros((r.dim, self.ldim))
            for i in dict.fromkeys(r.vidx):
                s = self.specs[i]

                def f(d, i=i, s=s):
                    local = {j: flats[j] for j in r.vidx}
                    local[i] = s.retract(flats[i], d)
                    return r.fn(*[local[j] for j in r.vidx])

                block[:, columns[i] : columns[i] + s.ldim] = numdiff(f, s.ldim, h)
            rows.append(r.noise.W @ block)
        return np.concatenate(rows, axis=0)

    def tame(self, flats, small=None):
        """Whether the logarithms inside prior and between factors are differentiated
        accurately here: away from the cut at pi, and away from the tiny angles at which
        jaxlie's formulas cancel."""
        small = small or (5e-3 if jax.config.jax_enable_x64 else 0.15)
        for r in self.refs:
            if r.kind in ("prior", "between"):
                name = self.specs[r.vidx[0]].group.name
                v = r.residual(flats)
                angle = np.linalg.norm({"SO2": v, "SE2": v[2:], "SO3": v, "SE3": v[3:]}[name])
                if not angle < 3.1 or (name in ("SE2", "SE3") and angle < small):
                    return False
        return True

    def signature(self):
        return (tuple(self.types), tuple((r.kind, r.vidx, r.dim, r.noise.kind) for r in self.refs))

    def describe(self):
        return {
            "variables": self.types,
            "factors": [
                {"kind": r.kind, "variables": list(r.vidx), "dim": r.dim, "noise": r.noise.kind}
                for r in self.refs
            ],
        }


def numdiff(f, n, h=2e-3):
    """Fourth-order central differences."""
    cols = []
    for k in range(n):
        e = np.zeros(n)
        e[k] = h
        cols.append((8 * (f(e) - f(-e)) - (f(2 * e) - f(-2 * e))) / (12 * h))
    return np.stack(cols, axis=-1)


ALL_TYPES = list(zoo.SPECS)


def gen_types(rng, n_types=None, pool=None, max_count=4):
    pool = ALL_TYPES if pool is None else pool
    n_types = int(rng.integers(1, 5)) if n_types is None else n_types
    chosen = [pool[i] for i in rng.choice(len(pool), size=min(n_types, len(pool)), replace=False)]
    types = []
    for t in chosen:
        types += [t] * int(rng.integers(1, max_count + 1))
    rng.shuffle(types)
    return types


def companions(rng, types):
    """Occasionally complete pairs of types that specific factors need."""
    s = set(types)
    for a, b in (("SE2", "R2"), ("Pair", "Matrix"), ("SE3", "R3"), ("NameA", "NameB")):
        if (a in s) != (b in s) and rng.random() < 0.5:
            types = types + [b if a in s else a] * int(rng.integers(1, 3))
    return types


def gen_graph(rng, types=None, n_templates=None, per_template=4, noise_kinds=None, kinds=None,
              truth=None, meas_noise=0.0, noise_scale=1.0, max_arity=3, shuffle=True, repeat_ok=True):
    types = companions(rng, gen_types(rng)) if types is None else types
    noise_kinds = zoo.GAUSS_KINDS + ["custom"] if noise_kinds is None else noise_kinds
    variables = [zoo.SPECS[t].cls() for t in types]
    by_type: Dict[str, List[int]] = {}
    for i, t in enumerate(types):
        by_type.setdefault(t, []).append(i)
    uniq = list(by_type)
    n_templates = int(rng.integers(2, 7)) if n_templates is None else n_templates

    templates = []
    for _ in range(n_templates):
        t = zoo.make_template(rng, uniq, noise_kinds, kinds, max_arity)
        if t is not None:
            templates.append(t)
    plan = []
    for t in templates:
        for _ in range(int(rng.integers(1, per_template + 1))):
            vidx = []
            for name in t.types:
                c = by_type[name]
                if not repeat_ok:
                    c = [i for i in c if i not in vidx]
                    if not c:
                        break
                vidx.append(c[rng.integers(len(c))])
            if len(vidx) == len(t.types):
                plan.append((t, vidx))
    # Every variable must be constrained by something.
    used = {i for _, v in plan for i in v}
    for i, name in enumerate(types):
        if i not in used:
            s = zoo.SPECS[name]
            if s.group is not None and (kinds is None or "prior" in kinds):
                t = zoo.Template("prior", (name,), s.ldim, noise_kinds[0])
            elif name in zoo.ARRAY_NAMES:
                t = zoo.Template("linear", (name,), s.pdim, noise_kinds[0])
            else:
                t = zoo.Template("any", (name,), max(3, s.ldim), noise_kinds[0], (2, "tanh"))
            plan.append((t, [i]))
    if shuffle:
        plan = [plan[i] for i in rng.permutation(len(plan))]
    factors, refs = [], []
    for t, vidx in plan:
        scale = noise_scale(rng) if callable(noise_scale) else noise_scale
        f, r = zoo.instantiate(rng, t, variables, vidx, scale, truth, meas_noise)
        factors.append(f)
        refs.append(r)
    return GraphCase(types, variables, factors, refs, [t for t, _ in plan])


def spread_scale(rng):
    """Weights from vague to very precise, in one graph."""
    return float(10 ** rng.uniform(-3, 5))


def match_rows(got, want):
    """Match rows of two matrices as multisets. Returns the largest deviation."""
    if got.shape != want.shape:
        return np.inf
    d = np.abs(got[:, None, :] - want[None, :, :]).max(axis=-1)
    d = np.where(np.isfinite(d), d, 1e30)
    i, j = linear_sum_assignment(d)
    return float(d[i, j].max()) if len(i) else 0.0


def dense_from_coo(A):
    """Densify a library sparse matrix from its public fields."""
    out = np.zeros(A.shape)
    np.add.at(out, (np.asarray(A.coords.rows), np.asarray(A.coords.cols)), np.asarray(A.values, float))
    return out


def add_unary(rng, case, i, noise_kinds, truth=None, meas_noise=0.0):
    """Constrain one variable fully by an extra factor on it alone."""
    s = case.specs[i]
    noise = noise_kinds[int(rng.integers(len(noise_kinds)))]
    if s.group is not None and rng.random() < 0.7:
        t = zoo.Template("prior", (case.types[i],), s.ldim, noise)
    elif case.types[i] in zoo.ARRAY_NAMES:
        t = zoo.Template("linear", (case.types[i],), s.pdim + int(rng.integers(0, 2)), noise)
    else:
        t = zoo.Template("any", (case.types[i],), s.pdim + 1, noise, (2, "tanh"))
    f, r = zoo.instantiate(rng, t, case.variables, [i], 1.0, truth, meas_noise)
    k = int(rng.integers(len(case.factors) + 1))
    case.factors.insert(k, f)
    case.refs.insert(k, r)
    case.templates.insert(k, t)


def determine(rng, case, at, max_cond, noise_kinds, truth=None, meas_noise=0.0, tries=6):
    """Add factors until the Jacobian has full column rank with the given conditioning.
    Returns whether it worked."""
    for attempt in range(tries):
        J = case.ref_jacobian(at)
        if J.shape[0] >= J.shape[1]:
            sv = np.linalg.svd(J, compute_uv=False)
            if sv[-1] > 0 and sv[0] / sv[-1] <= max_cond and sv[-1] > 0.05:
                return True
        for i in range(len(case.variables)):
            if attempt or rng.random() < 0.6:
                add_unary(rng, case, i, noise_kinds, truth, meas_noise)
    return False


def gauss_newton(case, flats, iterations=60, tol=1e-13):
    """Reference Gauss-Newton with undamped steps. Returns values and whether it
    converged by steady contraction."""
    last = None
    for _ in range(iterations):
        r, J = case.ref_residual(flats), case.ref_jacobian(flats)
        step = np.linalg.lstsq(J, -r, rcond=None)[0]
        n = np.linalg.norm(step)
        if not np.isfinite(n) or (last is not None and n > 0.5 * last and n > 1e-9):
            return flats, False
        deltas, k = [], 0
        for s in case.specs:
            deltas.append(step[k : k + s.ldim])
            k += s.ldim
        flats = case.retract(flats, deltas)
        if n < tol:
            return flats, True
        last = n
    return flats, last < 1e-9


def canon_deviation(case, a, b):
    """Largest difference of two sets of values, relative to their magnitudes."""
    worst = 0.0
    for s, x, y in zip(case.specs, a, b):
        cx, cy = np.asarray(s.canon(np.asarray(x, float))), np.asarray(s.canon(np.asarray(y, float)))
        if not np.all(np.isfinite(cx)):
            return np.inf
        worst = max(worst, float(np.abs(cx - cy).max() / (1 + np.abs(cy).max())))
    return worst


def huber_weights(case, flats):
    """Huber weights of the residual rows. None if a residual is too close to its
    threshold."""
    out = []
    for r in case.refs:
        w = 1.0
        if r.noise.deltas:
            d, m = r.noise.deltas[0], np.linalg.norm(r.noise.W @ r.residual(flats))
            if abs(m - d) < 1e-3 * d:
                return None
            w = 1.0 if m < d else np.sqrt(d / m)
        out.append(np.full(r.dim, w))
    return np.concatenate(out)
