"""Assignments against a dictionary model, over operation histories."""
import jax
import jaxfg
import numpy as np
from jaxfg.core import StorageLayout, VariableAssignments

from .. import big, graphs, zoo
from ..core import Ctx


def same(ctx, got, want, label, tol):
    """Equal, where numbers that are not finite have to be the same ones."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    fin = np.isfinite(want)
    ctx.check(got.shape == want.shape and np.array_equal(got[~fin], want[~fin], equal_nan=True), label, got=got, want=want)
    ctx.check(np.all(np.abs(got[fin] - want[fin]) <= tol * np.abs(want[fin])), label, got=got, want=want)


def check_against(ctx, a, model, specs, label, thorough=True):
    """`model` maps variable -> flat value."""
    tol = ctx.tol(1e-12, 1e-6)
    ctx.check(set(a.get_variables()) == set(model) and len(a.get_variables()) == len(model),
              f"{label}: variables of the assignments")
    for v, want in model.items():
        got = a.get_value(v)
        s = specs[v]
        like = s.to_value(want)
        ctx.check(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(like),
                  f"{label}: value structure of {s.name}")
        ctx.check([np.shape(x) for x in jax.tree_util.tree_leaves(got)] == [np.shape(x) for x in jax.tree_util.tree_leaves(like)],
                  f"{label}: value shapes of {s.name}")
        same(ctx, s.from_value(got), want, f"{label}: value of a {s.name} variable", tol)
        ctx.count("reads")
    if not thorough:
        return
    d = a.as_dict()
    ctx.check(set(d) == set(model), f"{label}: keys of the dictionary")
    for v, want in model.items():
        same(ctx, specs[v].from_value(d[v]), want, f"{label}: dictionary value of a {specs[v].name} variable", tol)
    for t in dict.fromkeys(type(v) for v in model):
        members = [v for v in a.get_variables() if type(v) is t]
        stacked = a.get_stacked_value(t)
        s = specs[members[0]]
        for k, v in enumerate(members):
            el = jax.tree_util.tree_map(lambda x: x[k], stacked)
            same(ctx, s.from_value(el), model[v], f"{label}: stacked value {k} of type {s.name}", tol)
        ctx.check(all(np.shape(l)[0] == len(members) for l in jax.tree_util.tree_leaves(stacked)), f"{label}: stack length")
        ctx.count("stacked_reads", len(members))
    text = repr(a)
    ctx.check(isinstance(text, str), f"{label}: repr")


def big_case(ctx):
    rng = ctx.rng
    g = big.Big(rng)
    x = g.rand(rng)
    model = dict(zip(g.variables, x))
    others = [zoo.SPECS["SE2"].cls() for _ in range(40)]
    model.update({v: zoo.SPECS["SE2"].rand(rng) for v in others})
    order = [*g.variables[:700], *others, *g.variables[700:]]
    a = VariableAssignments.make_from_dict({v: zoo.SPECS["SE2"].to_value(model[v]) if v in others else model[v] for v in order})
    flat = lambda v, value: zoo.SPECS["SE2"].from_value(value) if v in others else np.asarray(value, float)
    probe = [g.variables[0], g.variables[-1], others[0], others[-1]] + [g.variables[i] for i in rng.integers(0, big.COUNT, 12)]
    changed = g.variables[int(rng.integers(big.COUNT))]
    b = a.set_value(changed, np.full(big.DIM, 2.5))
    for v in probe + [changed]:
        same(ctx, flat(v, a.get_value(v)), model[v], "value in large assignments", ctx.tol(1e-12, 1e-6))
        same(ctx, flat(v, b.get_value(v)), np.full(big.DIM, 2.5) if v is changed else model[v], "value in updated large assignments", ctx.tol(1e-12, 1e-6))
        ctx.count("reads", 2)
    stacked = np.asarray(a.get_stacked_value(g.V), float)
    same(ctx, stacked[-3:].ravel(), x[-3:].ravel(), "stacked values of large assignments", ctx.tol(1e-12, 1e-6))
    poses = a.get_stacked_value(zoo.SPECS["SE2"].cls)
    same(ctx, np.asarray(poses.unit_complex_xy, float).ravel(), np.concatenate([model[v] for v in others]), "stacked poses of large assignments", ctx.tol(1e-12, 1e-6))
    # Few but long vectors, so that storage can also be reordered.
    for dim, count in ((12000, 6), (37, 8)):
        vs = [jaxfg.core.RealVectorVariable[dim]() for _ in range(count)] + [zoo.SPECS["SE2"].cls()]
        x = {v: rng.integers(0, 1000, size=dim) / 8.0 for v in vs[:-1]}
        x[vs[-1]] = np.array([1.0, 0.0, 2.0, 3.0])
        val = lambda v: zoo.SPECS["SE2"].to_value(x[v]) if v is vs[-1] else x[v]
        flat = lambda v, value: zoo.SPECS["SE2"].from_value(value) if v is vs[-1] else np.asarray(value, float)
        a = VariableAssignments.make_from_dict({v: val(v) for v in vs})
        for _ in range(2):
            a = a.update_storage_layout(StorageLayout.make([vs[i] for i in rng.permutation(len(vs))]))
            for v in vs:
                same(ctx, flat(v, a.get_value(v)), x[v], "value in reordered large assignments", ctx.tol(1e-12, 1e-6))
                ctx.count("reads")
    ctx.count("large")


def run_case(ctx: Ctx):
    rng = ctx.rng
    if ctx.case % 50 == 49:
        return big_case(ctx)
    types = graphs.companions(rng, graphs.gen_types(rng, int(rng.integers(1, 6)), max_count=3 if ctx.case % 4 else 8))
    if ctx.case % 7 == 3:
        # Just a few numbers: everything is at a boundary.
        types = graphs.gen_types(rng, int(rng.integers(1, 4)), pool=["R1", "R2", "SO2", "VecSub", "R3"], max_count=1 + int(rng.integers(2)))
        ctx.count("tiny")
    variables = [zoo.SPECS[t].cls() for t in types]
    specs = {v: zoo.SPECS[t] for v, t in zip(variables, types)}
    n = len(variables)
    f32 = (lambda x: x) if ctx.x64 else (lambda x: np.asarray(np.asarray(x, np.float32), float))

    # Storage is made of numbers like any others: integers, infinities and NaNs included.
    style = ["normal", "normal", "integers", "special"][ctx.case % 4]

    def rand(v):
        x = f32(specs[v].rand(rng))
        if specs[v].group is None and rng.random() < 0.15:
            # Zero is a value too, also where it is not the default.
            ctx.count("zeros", bool(np.any(specs[v].default)))
            return np.zeros_like(x)
        if style == "integers":
            x = np.round(3 * x) + 0.0
        elif style == "special" and rng.random() < 0.4:
            x = x.copy()
            x[int(rng.integers(len(x)))] = [np.nan, np.inf, -np.inf, 1e30, -1e-30, 0.0][int(rng.integers(6))]
            x = f32(x)
        return x

    def give(v, x):
        """The value handed to the library for a flat vector."""
        value = specs[v].to_value(x)
        if style == "integers" and specs[v].group is None and rng.random() < 0.8:
            value = jax.tree_util.tree_map(lambda l: np.asarray(l).astype(np.int32), value)
        elif rng.random() < 0.3:
            value = jax.tree_util.tree_map(np.asarray, value)
        return value

    # Live objects with their models: operations must never disturb older objects.
    live = []

    def make():
        k = int(rng.integers(5))
        order = [variables[i] for i in rng.permutation(n)]
        if k == 0:
            model = {v: f32(specs[v].default) for v in order}
            a = VariableAssignments.make_from_defaults(order if rng.random() < 0.5 else iter(order))
            op = "make_from_defaults"
        elif k == 1:
            model = {v: rand(v) for v in order}
            a = VariableAssignments.make_from_dict({v: give(v, x) for v, x in model.items()})
            op = "make_from_dict"
        elif k == 4:
            # Built by hand from plain storage, as a user or a solver would.
            model = {v: rand(v) for v in order}
            layout = StorageLayout.make(order)
            storage = np.zeros(layout.dim, np.float64 if ctx.x64 else np.float32)
            for v, x in model.items():
                i = layout.index_from_variable[v]
                storage[i : i + len(x)] = x
            a = VariableAssignments(storage=storage if rng.random() < 0.7 else jax.numpy.asarray(storage), storage_layout=layout)
            op = "own storage"
        else:
            given = {v: rand(v) for v in order if rng.random() < 0.5}
            model = {v: given.get(v, f32(specs[v].default)) for v in order}
            shuffled = list(given)
            rng.shuffle(shuffled)
            given_values = {v: give(v, given[v]) for v in shuffled}
            if rng.random() < 0.3:
                # Values for variables that were not asked for are ignored.
                extra = zoo.SPECS["R2"].cls()
                given_values[extra] = np.ones(2)
            if k == 3 and rng.random() < 0.3:
                given_values, model = [{}, None][int(rng.integers(2))], {v: f32(specs[v].default) for v in order}
            a = VariableAssignments.make_from_partial_dict(order, given_values)
            op = "make_from_partial_dict"
        return op, a, model

    history = []
    for step in range(10 if ctx.tier == "quick" else 16):
        k = int(rng.integers(6))
        if not live or k == 0:
            op, a, model = make()
        else:
            src, smodel = live[int(rng.integers(len(live)))]
            if k in (1, 2, 3):
                v = variables[int(rng.integers(n))]
                x = rand(v) if style != "integers" or rng.random() < 0.5 else f32(specs[v].rand(rng))
                a = src.set_value(v, specs[v].to_value(x) if rng.random() < 0.5 else give(v, x) if np.array_equal(x, np.round(x)) else specs[v].to_value(x))
                model = dict(smodel)
                model[v] = x
                op = f"set_value {specs[v].name}"
            elif k == 4:
                order = [variables[i] for i in rng.permutation(n)]
                layout = StorageLayout.make(order)
                a = src.update_storage_layout(layout)
                model = dict(smodel)
                ctx.check(a.storage_layout == layout, "storage layout after reordering")
                op = "update_storage_layout"
            else:
                # Through a pytree round trip, as any JAX transformation would do.
                leaves, treedef = jax.tree_util.tree_flatten(src)
                a = jax.tree_util.tree_unflatten(treedef, [np.array(l) for l in leaves])
                model = dict(smodel)
                op = "pytree round trip"
        history.append(op)
        ctx.note(history=list(history), types=types)
        check_against(ctx, a, model, specs, f"after {op}", thorough=step % 2 == 1)
        for old, old_model in live:
            check_against(ctx, old, old_model, specs, f"older object after {op}", thorough=False)
        live.append((a, model))
        live = live[-4:]
        ctx.count("operations")
    for a, model in live:
        check_against(ctx, a, model, specs, "old object", thorough=False)
    if len(set(types)) > 1:
        ctx.nontrivial((tuple(types), tuple(history)))
    ctx.sample({"types": types, "history": history})
