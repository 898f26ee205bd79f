"""What factor code receives: factors that echo their inputs and record their form."""
import numpy as np
import jax
import jax_dataclasses as jdc
import jaxlie
from typing import Any, NamedTuple, Tuple
from jax import numpy as jnp
import jaxfg
from jaxfg.core import FactorBase, StackedFactorGraph, VariableAssignments

from .. import graphs, zoo
from ..core import Ctx

overrides = zoo.overrides
SEEN = []  # Forms of the inputs, one record per execution of factor code


def record(factor, values, where):
    SEEN.append(dict(
        where=where, cls=type(factor), variables=tuple(type(v) for v in factor.variables), container=type(values), count=len(values),
        structure=[jax.tree_util.tree_structure(x) for x in values], shapes=[[np.shape(k) for k in jax.tree_util.tree_leaves(x)] for x in values],
        static=factor.static, param=np.shape(factor.param), ident=np.shape(factor.ident)))


def encode(xp, flats, param, ident, static):
    """Makes every entry tell its factor, its position and its value."""
    flat = xp.concatenate([*flats, param])
    k = np.arange(1, flat.shape[0] + 1)
    return 100.0 * ident + 0.25 * STATIC[static] + (1.0 + 0.1 * k) * flat


STATIC = {"p": 1.0, "q": 2.0, "r": 3.0}


def echo(factor, values):
    record(factor, values, "residual")
    flats = [zoo.spec_of(v).jflat(x) for v, x in zip(factor.variables, values)]
    return encode(jnp, flats, factor.param, factor.ident, factor.static)


def echo_jacobian(factor, values):
    record(factor, values, "jacobian")
    flats = [zoo.spec_of(v).jflat(x) for v, x in zip(factor.variables, values)]
    r = encode(jnp, flats, factor.param, factor.ident, factor.static)
    out, k = [], 0
    for v in factor.variables:
        n = zoo.spec_of(v).ldim
        out.append(r[:, None] * (1.0 + 0.01 * np.arange(k, k + n))[None, :])
        k += n
    return tuple(out)


def ref_jacobian(r, ldims):
    out, k = [], 0
    for n in ldims:
        out.append(r[:, None] * (1.0 + 0.01 * np.arange(k, k + n))[None, :])
        k += n
    return out


def make_class(name, hint, own_jacobian):
    """A factor class whose residual is annotated with the given type of values."""
    annotations = {} if hint is None else {"variable_values": hint, "return": jax.Array}

    class Echo(FactorBase):
        param: Any
        ident: Any
        static: jdc.Static[str]

        @overrides
        def compute_residual_vector(self, variable_values):
            return echo(self, variable_values)

        compute_residual_vector.__annotations__ = annotations

    class EchoJacobian(FactorBase):
        param: Any
        ident: Any
        static: jdc.Static[str]

        @overrides
        def compute_residual_vector(self, variable_values):
            return echo(self, variable_values)

        compute_residual_vector.__annotations__ = annotations

        @overrides
        def compute_residual_jacobians(self, variable_values):
            return echo_jacobian(self, variable_values)

    cls = EchoJacobian if own_jacobian else Echo
    cls.__name__ = cls.__qualname__ = name
    return jdc.pytree_dataclass(cls)


class One(NamedTuple):
    first: object


class Two(NamedTuple):
    alpha: object
    beta: object


class Three(NamedTuple):
    z: object
    y: object
    x: object


class SameTwo(NamedTuple):
    """As Two, other class."""

    alpha: object
    beta: object


CLASSES = []  # (class, arity or None, container); some classes share their name
for own in (False, True):
    s = "J" if own else ""
    CLASSES += [
        (make_class("EchoAny" + s, Tuple[object, ...], own), None, tuple),
        (make_class("EchoOne" + s, One, own), 1, One),
        (make_class("EchoTwo" + s, Two, own), 2, Two),
        (make_class("EchoTwo" + s, SameTwo, own), 2, SameTwo),
        (make_class("EchoThree" + s, Three, own), 3, Three),
        (make_class("EchoOne" + s, Tuple[object], own), 1, tuple),
        (make_class("EchoTwo" + s, Tuple[object, object], own), 2, tuple),
        (make_class("EchoPlainThree" + s, Tuple[object, object, object], own), 3, tuple),
    ]
INFO = {c: (n, k) for c, n, k in CLASSES}


def judge_forms(ctx, label, allowed):
    """Every recorded execution must look like one of the declared factors."""
    ctx.check(SEEN, f"{label}: factor code did not run")
    for rec in SEEN:
        key = (rec["cls"], rec["variables"], rec["static"], rec["param"])
        ctx.check(key in allowed, f"{label}: factor code ran with fields of no factor in the graph", record={k: str(v) for k, v in rec.items()})
        _, container = INFO[rec["cls"]]
        ctx.check(rec["container"] is container, f"{label}: values arrive in a {rec['container'].__name__} instead of {container.__name__}")
        ctx.check(rec["count"] == len(rec["variables"]), f"{label}: number of values", got=rec["count"], want=len(rec["variables"]))
        ctx.check(rec["ident"] == (), f"{label}: shape of a parameter", got=rec["ident"])
        for V, structure, shapes in zip(rec["variables"], rec["structure"], rec["shapes"]):
            d = V.get_default_value()
            ctx.check(structure == jax.tree_util.tree_structure(d), f"{label}: structure of a value", got=structure, type=V.__name__)
            ctx.check(shapes == [np.shape(x) for x in jax.tree_util.tree_leaves(d)], f"{label}: shapes of a value", got=shapes, type=V.__name__)
        ctx.count("executions")
    SEEN.clear()


def run_echo(ctx):
    rng = ctx.rng
    types = graphs.gen_types(rng, int(rng.integers(1, 5)), max_count=3)
    case = graphs.GraphCase(types, [zoo.SPECS[t].cls() for t in types], [], [], [])
    specs, variables = case.specs, case.variables
    n = len(types)
    own = bool(rng.random() < 0.5)
    classes = CLASSES[8:] if own else CLASSES[:8]
    factors, descr = [], []
    shapes = []
    for _ in range(int(rng.integers(1, 4))):
        cls, arity, _ = classes[int(rng.integers(8))]
        arity = int(rng.integers(1, 4)) if arity is None else arity
        shapes.append((cls, [ctx.pick(types) for _ in range(arity)], int(rng.integers(1, 3)), ctx.pick(["p", "q", "r"])))
    if rng.random() < 0.5:
        # The same in all but one respect.
        cls, ts, p, st = shapes[0]
        alt = ctx.pick(["static", "param", "class", "types"])
        if alt == "static":
            shapes.append((cls, ts, p, {"p": "q", "q": "r", "r": "p"}[st]))
        elif alt == "param":
            shapes.append((cls, ts, p + 1, st))
        elif alt == "types":
            shapes.append((cls, [ctx.pick(types) for _ in ts], p, st))
        else:
            others = [c for c, a, _ in classes if a in (None, len(ts)) and c is not cls]
            shapes.append((ctx.pick(others), ts, p, st))
    for cls, ts, p, st in shapes:
        for _ in range(int(rng.integers(1, 5))):
            vidx = [ctx.pick([i for i in range(n) if types[i] == t]) for t in ts]
            dim = sum(zoo.SPECS[t].pdim for t in ts) + p
            param, ident = rng.normal(size=p), float(len(factors) + 1)
            f = cls(variables=tuple(variables[i] for i in vidx), noise_model=jaxfg.noises.DiagonalGaussian(np.ones(dim)),
                    param=jnp.asarray(param) if rng.random() < 0.5 else param, ident=ident if rng.random() < 0.5 else jnp.asarray(ident), static=st)
            factors.append(f)
            descr.append((vidx, param, ident, st))
    order = rng.permutation(len(factors))
    factors, descr = [factors[i] for i in order], [descr[i] for i in order]
    used = [i for i in range(n) if any(i in d[0] for d in descr)]
    flats = case.rand_flats(rng)
    allowed = {(type(f), tuple(type(v) for v in f.variables), f.static, np.shape(f.param)) for f in factors}
    ctx.note(factors=[(type(f).__name__, [types[i] for i in d[0]], d[0], d[3]) for f, d in zip(factors, descr)])
    tol = ctx.tol(1e-9, 1e-3)
    SEEN.clear()

    # Alone.
    a = case.assignments(flats)
    wants = []
    for f, (vidx, param, ident, st) in zip(factors, descr):
        want = encode(np, [flats[i] for i in vidx], param, ident, st)
        wants.append(want)
        values = f.get_variable_values_from_assignments(a)
        container = INFO[type(f)][1]
        ctx.check(type(values) is container, "container of the values of a factor", got=type(values).__name__)
        for x, i in zip(values, vidx):
            ctx.close(specs[i].from_value(x), flats[i], "value of a factor's variable", tol, tol, type=types[i])
        ctx.close(f.compute_residual_vector(values), want, "residual of a factor on its own", 0, tol * 1000)
        again = f.build_variable_value_tuple(tuple(specs[i].to_value(flats[i]) for i in vidx))
        ctx.check(type(again) is container and len(again) == len(vidx), "container of given values")
        for x, i in zip(again, vidx):
            ctx.close(specs[i].from_value(x), flats[i], "given value of a factor's variable", tol, tol, type=types[i])
        if own:
            js = f.compute_residual_jacobians(values)
            for j, w in zip(js, ref_jacobian(want, [specs[i].ldim for i in vidx])):
                ctx.close(j, w, "Jacobian of a factor on its own", 0, tol * 2000)
        ctx.count("factors")
    judge_forms(ctx, "alone", allowed)

    # Inside a graph.
    graph = StackedFactorGraph.make(factors, use_onp=bool(rng.random() < 0.5))
    for k in range(2):
        order = [used[i] for i in rng.permutation(len(used))]
        a = VariableAssignments.make_from_dict({variables[i]: specs[i].to_value(flats[i]) for i in order})
        wants = [encode(np, [flats[i] for i in v], p, d, s) for v, p, d, s in descr]
        r = np.asarray(graph.compute_whitened_residual_vector(a), float)
        w = np.concatenate(wants)
        ctx.check(r.shape == w.shape, "size of the graph's residual", got=r.shape, want=w.shape)
        ctx.close(np.sort(r), np.sort(w), "what factors received inside a graph", 0, tol * 1000)
        ctx.count("graph_evaluations")
        if k == 0:
            judge_forms(ctx, "graph", allowed)
        A = graph.compute_whitened_residual_jacobian(a, jnp.asarray(r) if k else graph.compute_whitened_residual_vector(a))
        if k == 0:
            # With derivatives taken automatically the residual code runs on tangents too.
            judge_forms(ctx, "graph Jacobian", allowed)
        if own:
            layout = graph.local_storage_layout
            J = graphs.dense_from_coo(A)
            total = np.zeros((len(w), layout.dim))
            row = 0
            for (vidx, *_), want in zip(descr, wants):
                for b, i in zip(ref_jacobian(want, [specs[i].ldim for i in vidx]), vidx):
                    c = layout.index_from_variable[variables[i]]
                    total[row : row + len(want), c : c + specs[i].ldim] += b
                row += len(want)
            dev = graphs.match_rows(np.column_stack([r, J]), np.column_stack([w, total]))
            ctx.check(dev <= tol * 3000, f"what Jacobian code received inside a graph (deviation {dev:.3g})")
            ctx.count("jacobian_evaluations")
        flats = case.rand_flats(rng)
    SEEN.clear()
    ctx.nontrivial(("echo", tuple((type(f).__name__, tuple(d[0]), d[3]) for f, d in zip(factors, descr)), tuple(types)))
    ctx.sample([(type(f).__name__, [types[i] for i in d[0]]) for f, d in zip(factors, descr)])


class Mixed(NamedTuple):
    pose: jaxlie.SE2
    extra: dict
    point: jax.Array


def run_rejected(ctx):
    rng = ctx.rng
    one = lambda n: jaxfg.noises.DiagonalGaussian(np.ones(n))
    val = lambda t: zoo.SPECS[t].to_value(zoo.SPECS[t].rand(rng))
    var = lambda t: zoo.SPECS[t].cls()
    mixed = ctx_class("EchoMixed", Mixed)
    plain = ctx_class("EchoMixedPlain", Tuple[jaxlie.SE2, dict, jax.Array])
    poses = ctx_class("EchoPoses", Tuple[jaxlie.MatrixLieGroup, ...])
    types = ["SE2", "Dict", "R2"]
    dim = sum(zoo.SPECS[t].pdim for t in types) + 1
    for cls, container in ((mixed, Mixed), (plain, tuple)):
        f = cls(variables=tuple(var(t) for t in types), noise_model=one(dim), param=np.ones(1), ident=1.0, static="p")
        good = tuple(val(t) for t in types)
        out = f.build_variable_value_tuple(good)
        ctx.check(type(out) is container and len(out) == 3, "container of mixed values")
        bad = {
            "too few": good[:2],
            "too many": good + (val("R2"),),
            "none": (),
            "swapped": (good[2], good[1], good[0]),
            "wrong group": (val("SO2"), good[1], good[2]),
            "wrong group of higher dimension": (val("SE3"), good[1], good[2]),
            "array for dictionary": (good[0], val("R3"), good[2]),
            "dictionary for array": (good[0], good[1], val("Dict")),
        }
        for label, values in bad.items():
            ctx.must_raise(lambda: f.build_variable_value_tuple(values), f"values contradicting the signature ({label}, {container.__name__})")
        # Declared variables contradicting the signature, inside a graph.
        k = int(rng.integers(3))
        wrong = list(types)
        wrong[k] = ctx.pick([t for t in ["SE2", "Dict", "R2", "SO3", "Pair"] if not (t == types[k])])
        if {wrong[k], types[k]} == {"R2", "R3"}:
            continue
        d = sum(zoo.SPECS[t].pdim for t in wrong) + 1
        fw = cls(variables=tuple(var(t) for t in wrong), noise_model=one(d), param=np.ones(1), ident=1.0, static="p")
        a = VariableAssignments.make_from_dict({v: val(t) for v, t in zip(fw.variables, wrong)})
        ctx.must_raise(lambda: fw.get_variable_values_from_assignments(a), "variables contradicting the signature", types=wrong)
        ctx.must_raise(lambda: StackedFactorGraph.make([fw]).compute_cost(a), "graph with variables contradicting the signature", types=wrong)
    for count, wrong in ((1, "R2"), (2, "R3"), (3, "Dict")):
        ts = [ctx.pick(zoo.LIE_NAMES) for _ in range(count)]
        d = sum(zoo.SPECS[t].pdim for t in ts) + 1
        f = poses(variables=tuple(var(t) for t in ts), noise_model=one(d), param=np.ones(1), ident=1.0, static="p")
        good = tuple(val(t) for t in ts)
        ctx.check(len(f.build_variable_value_tuple(good)) == count, "open-ended signature")
        i = int(rng.integers(count))
        ctx.must_raise(lambda: f.build_variable_value_tuple(good[:i] + (val(wrong),) + good[i + 1 :]), "one value contradicting an open-ended signature", position=i)
    # A signature without any hint.
    bare = ctx_class("EchoBare", None)
    f = bare(variables=(var("R2"),), noise_model=one(3), param=np.ones(1), ident=1.0, static="p")
    ctx.must_raise(lambda: f.build_variable_value_tuple((val("R2"),)), "factor without type hints")
    SEEN.clear()
    ctx.nontrivial(("rejected", ctx.case))


_CLS = {}


def ctx_class(name, hint):
    if name not in _CLS:
        _CLS[name] = make_class(name, hint, False)
    return _CLS[name]


def run_case(ctx: Ctx):
    if ctx.case % 8 == 7:
        run_rejected(ctx)
    else:
        run_echo(ctx)
