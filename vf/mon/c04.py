"""Retraction per variable against the reference manifolds."""
import jax
import numpy as np
from jaxfg.core import RealVectorVariable, StorageLayout, VariableAssignments

from .. import graphs, zoo
from ..core import Ctx


def big_case(ctx):
    """Long vectors next to poses: more than 65536 entries, stored in different orders."""
    rng = ctx.rng
    V, S = RealVectorVariable[12000], zoo.SPECS["SE3"]
    vs = [V() for _ in range(6)] + [S.cls() for _ in range(3)]
    x = [rng.normal(size=12000) for _ in range(6)] + [S.rand(rng) for _ in range(3)]
    d = [rng.normal(size=12000) for _ in range(6)] + [rng.normal(size=6) for _ in range(3)]
    order = list(rng.permutation(9))
    a = VariableAssignments.make_from_dict({vs[i]: x[i] if i < 6 else S.to_value(x[i]) for i in order})
    layout = StorageLayout.make([vs[i] for i in rng.permutation(9)], local=True)
    storage = np.zeros(layout.dim)
    for v, delta in zip(vs, d):
        k = layout.index_from_variable[v]
        storage[k : k + len(delta)] = delta
    out = a.manifold_retract(VariableAssignments(storage=jax.numpy.asarray(storage), storage_layout=layout))
    for i, v in enumerate(vs):
        if i < 6:
            ctx.close(np.asarray(out.get_value(v), float), x[i] + d[i], "retracted long vector", ctx.tol(1e-12, 1e-5), 0)
        else:
            ctx.close(S.canon(S.from_value(out.get_value(v))), S.canon(S.retract(x[i], d[i])), "retracted SE3 next to long vectors",
                      ctx.tol(1e-9, 2e-5), ctx.tol(1e-9, 1e-5))
        ctx.count("retractions")
    ctx.count("large")


def run_case(ctx: Ctx):
    rng = ctx.rng
    if ctx.case % 50 == 35:
        return big_case(ctx)
    n_types = int(rng.integers(1, 7))
    types = graphs.gen_types(rng, n_types, max_count=4 if ctx.case % 4 else 15)
    variables = [zoo.SPECS[t].cls() for t in types]
    specs = [zoo.SPECS[t] for t in types]
    n = len(variables)
    ctx.note(types=types)
    rtol, atol = ctx.tol(1e-9, 2e-5), ctx.tol(1e-9, 1e-5)
    for rep in range(4):
        order = list(rng.permutation(n))
        flats = [s.rand(rng) for s in specs]
        integers = rep == 0 and all(s.group is None for s in specs) and not any(s.on_manifold(np.ones(s.pdim)) for s in specs)
        if integers:
            flats = [np.round(f) if s.name != "Positive" else np.ceil(f) for s, f in zip(specs, flats)]
        values = {variables[i]: specs[i].to_value(flats[i]) for i in order}
        if integers:
            values = {v: jax.tree_util.tree_map(lambda l: np.asarray(l).astype(np.int32), x) for v, x in values.items()}
            ctx.count("integer_starts")
        a = VariableAssignments.make_from_dict(values)
        if rep == 2:
            a = VariableAssignments(storage=np.array(a.storage), storage_layout=a.storage_layout)
        before = np.array(a.storage)
        local_order = order if rep == 0 else list(rng.permutation(n))
        layout = StorageLayout.make([variables[i] for i in local_order], local=True)
        scale = [1.0, 1e-4, 0.3, 10.0 ** rng.uniform(-9, -5)][rep]
        deltas = [rng.normal(size=s.ldim) * scale for s in specs]
        if rep == 0 and ctx.x64 and ctx.case % 3 == 0:
            deltas = [d * 8 if specs[i].name not in ("Positive", "RigidScale", "Sphere") else d for i, d in enumerate(deltas)]
        if rep == 0 and ctx.case % 3 == 1:
            # Vectors may move far.
            deltas = [d * 10 ** rng.uniform(2, 6) if specs[i].name in zoo.ARRAY_NAMES else d for i, d in enumerate(deltas)]
            ctx.count("far_moves")
        if rep == 2:
            deltas = [d * (rng.random() < 0.5) for d in deltas]
        storage = np.zeros(layout.dim)
        for i in range(n):
            k = layout.index_from_variable[variables[i]]
            storage[k : k + specs[i].ldim] = deltas[i]
        d = VariableAssignments(storage=storage if rep == 3 else jax.numpy.asarray(storage), storage_layout=layout)
        out = a.manifold_retract(d)
        ctx.check(out.storage_layout == a.storage_layout, "storage layout changed by retraction")
        for i in range(n):
            s = specs[i]
            got = s.from_value(out.get_value(variables[i]))
            want = s.retract(flats[i], deltas[i])
            ctx.close(s.canon(got), s.canon(want), f"retracted {s.name}", rtol, atol, delta=deltas[i], types=types)
            if ctx.x64 and rep in (1, 3):
                # However small the delta, it must move the variable accordingly.
                moved, expected = s.canon(got) - s.canon(flats[i]), s.canon(want) - s.canon(flats[i])
                slack = 1e-4 * np.abs(deltas[i]).max() + 1e-14 * (1 + np.abs(flats[i]).max()) ** 2
                ctx.check(np.abs(moved - expected).max() <= slack, f"{s.name} did not move by a small delta",
                          delta=deltas[i], moved=moved, expected=expected)
                ctx.count("small_moves")
            ctx.check(s.on_manifold(got) < ctx.tol(1e-9, 1e-5), f"{s.name} left its manifold", value=got)
            ctx.count("retractions")
            if rep == 1 and i < 4:
                # Through the variable class itself.
                single = type(variables[i]).manifold_retract(s.to_value(flats[i]), jax.numpy.asarray(deltas[i]))
                ctx.close(s.canon(s.from_value(single)), s.canon(want), f"retracted single {s.name}", rtol, atol)
                J = np.concatenate([np.asarray(j, float).reshape((-1, s.ldim))
                                    for j in type(variables[i]).manifold_retract_jacobian(s.to_value(flats[i]))])
                want_J = graphs.numdiff(lambda e: s.retract(flats[i], e), s.ldim)
                ctx.close(J, want_J, f"retraction Jacobian of {s.name}", ctx.tol(1e-7, 1e-4), ctx.tol(1e-7, 1e-4))
        ctx.check(np.array_equal(before, np.array(a.storage)), "retraction modified its input")
        # Zero delta.
        zero = VariableAssignments(storage=jax.numpy.zeros(layout.dim), storage_layout=layout)
        same = a.manifold_retract(zero)
        for i in range(n):
            ctx.close(specs[i].canon(specs[i].from_value(same.get_value(variables[i]))), specs[i].canon(flats[i]),
                      f"zero retraction of {specs[i].name}", ctx.tol(1e-12, 1e-6), ctx.tol(1e-12, 1e-6))
    # Repeated retraction stays on the manifold.
    cur, ref = a, flats
    for _ in range(8):
        cur = cur.manifold_retract(d)
        ref = [s.retract(f, e) for s, f, e in zip(specs, ref, deltas)]
    for i in range(n):
        got = specs[i].from_value(cur.get_value(variables[i]))
        ctx.check(specs[i].on_manifold(got) < ctx.tol(1e-8, 1e-4), f"{specs[i].name} drifted off its manifold", value=got)
        ctx.close(specs[i].canon(got), specs[i].canon(ref[i]), f"{specs[i].name} after repeated retraction",
                  ctx.tol(1e-8, 1e-4), ctx.tol(1e-8, 1e-4))
    if any(s.ldim != s.pdim for s in specs) and n > 1:
        ctx.nontrivial(tuple(types))
    ctx.sample({"types": types})
