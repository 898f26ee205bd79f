"""Helpers for trees and timing, and the printed form of assignments."""
import contextlib
import io
import re
import threading
import time
import warnings

import numpy as np
import jax
import jaxlie
from jax import numpy as jnp
import jaxfg
from jaxfg.core import StorageLayout, VariableAssignments

from .. import graphs, zoo
from ..core import Ctx


def leaf(rng, shape):
    kind = rng.integers(4)
    if kind == 0:
        return rng.integers(-9, 9, size=shape)
    x = rng.normal(size=shape) * 10.0 ** rng.integers(-3, 4)
    return jnp.asarray(x) if kind < 3 else x.astype(np.float32)


def build(form, leaves):
    a, b, c = leaves
    return {
        "tuple": lambda: (a, b, c),
        "dict": lambda: dict(z=a, a=b, m=c),
        "nested": lambda: [a, dict(x=(b, [c]))],
        "none": lambda: (a, None, dict(q=b), c),
        "leaf": lambda: a,
        "pair": lambda: (zoo.PairValue(a, b), c),
    }[form]()


FORMS = ["tuple", "dict", "nested", "none", "leaf", "pair"]


def trees(ctx):
    rng = ctx.rng
    form = ctx.pick(FORMS)
    count = int(rng.integers(1, 6))
    rank = int(rng.integers(1, 4))
    axis = int(rng.integers(-rank, rank))
    shapes = [tuple(int(n) for n in rng.integers(1, 5, size=rank)) for _ in range(3)]
    warnings.simplefilter("ignore")
    utils = jaxfg.utils
    for name, fn, ref in (("stack", utils.pytree_stack, np.stack), ("concatenate", utils.pytree_concatenate, np.concatenate)):
        per_tree = []
        for _ in range(count):
            own = []
            for shape in shapes:
                shape = list(shape)
                if name == "concatenate":
                    shape[axis] = int(rng.integers(1, 5))
                own.append(leaf(rng, tuple(shape)))
            per_tree.append(own)
        inputs = [build(form, own) for own in per_tree]
        before = [np.array(x) for own in per_tree for x in own]
        default = rng.random() < 0.4
        kw = {} if default else dict(axis=axis)
        if default and name == "concatenate" and axis not in (0, -rank):
            kw = dict(axis=axis)
        got = fn(*inputs, **kw)
        want = build(form, [ref([np.asarray(own[k]) for own in per_tree], **kw) for k in range(3)])
        ctx.check(jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want), f"structure after {name}", form=form, got=got)
        for g, w in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want)):
            ctx.close(g, w, f"leaf after {name}", ctx.tol(1e-12, 1e-6), 0, form=form, axis=axis)
            ctx.count("leaves")
        for x, b in zip([x for own in per_tree for x in own], before):
            ctx.check(np.array_equal(np.asarray(x), b), f"input changed by {name}")
        # The same inside compiled code.
        again = jax.jit(lambda *t: fn(*t, **kw))(*inputs)
        for g, w in zip(jax.tree_util.tree_leaves(again), jax.tree_util.tree_leaves(want)):
            ctx.close(g, w, f"leaf after compiled {name}", ctx.tol(1e-12, 1e-6), 0, form=form, axis=axis)
        if count > 1:
            other = build(FORMS[(FORMS.index(form) + 1) % len(FORMS)], per_tree[0])
            ctx.must_raise(lambda: fn(inputs[0], other, **kw), f"{name} of trees of different structure", form=form)
            bad = [np.zeros(tuple(n + 1 for n in np.shape(x))) for x in per_tree[0]]
            if name == "stack" or rank > 1:
                ctx.must_raise(lambda: fn(inputs[0], build(form, bad), **kw), f"{name} of leaves of different size", form=form)
    group = ctx.pick([jaxlie.SE2, jaxlie.SE3, jaxlie.SO3])
    s = zoo.SPECS[group.__name__]
    flats = [s.rand(rng, 1.0) for _ in range(count)]
    stacked = utils.pytree_stack(*[s.to_value(f) for f in flats])
    ctx.check(type(stacked) is group, "type of stacked poses", got=type(stacked))
    ctx.close(np.asarray(stacked.parameters()), np.array(flats), "stacked poses", ctx.tol(1e-12, 1e-6), 0)
    ctx.nontrivial(("trees", form, count, axis, tuple(shapes)))


def stopwatch(ctx):
    rng = ctx.rng
    pause = float(rng.choice([0.0, 0.02, 0.1, 0.3]))
    label = ctx.pick(["solve", "reading 100%", "{x} braces", "a\tb", "ünï", ""]) + str(int(rng.integers(1000)))
    fail = rng.random() < 0.4
    out = io.StringIO()
    inner = []
    error = None
    t0 = time.time()
    with contextlib.redirect_stdout(out):
        try:
            with jaxfg.utils.stopwatch(label):
                inner.append(time.time())
                seen = out.getvalue()
                print("body")
                time.sleep(pause)
                if fail:
                    raise KeyError("from the body")
                inner.append(time.time())
        except KeyError as e:
            error = e
    total = time.time() - t0
    text = re.sub(r"\x1b\[[0-9;]*m", "", out.getvalue())
    ctx.check((error is not None) == fail, "exception of the timed block", raised=fail, got=repr(error))
    ctx.check(label in seen, "label announced before the block runs", seen=seen, label=label)
    ctx.count("stopwatches")
    if not fail:
        tail = text.split("body")[-1]
        numbers = [float(x) for x in re.findall(r"([0-9]+\.?[0-9]*(?:[eE][-+]?[0-9]+)?) seconds", tail)]
        ctx.check(len(numbers) == 1, "one reported time", text=text)
        ctx.check(inner[1] - inner[0] - 5e-3 <= numbers[0] <= total + 5e-3, "reported time", reported=numbers, inner=inner[1] - inner[0], outer=total)
        ctx.count("times")
    else:
        ctx.count("failing_blocks")
    ctx.nontrivial(("stopwatch", label, pause, fail))


def printed(ctx):
    rng = ctx.rng
    types = graphs.gen_types(rng, int(rng.integers(1, 4)))
    specs = [zoo.SPECS[t] for t in types]
    variables = [s.cls() for s in specs]
    flats = {v: s.rand(rng, 1.0) for v, s in zip(variables, specs)}
    a = VariableAssignments.make_from_dict({v: s.to_value(flats[v]) for v, s in zip(variables, specs)})
    order = [variables[i] for i in rng.permutation(len(variables))]
    a = a.update_storage_layout(StorageLayout.make(order))
    text = repr(a)
    ctx.check(str(a) == text, "str and repr differ")
    at = 0
    listed = list(a.get_variables())
    ctx.check(set(listed) == set(variables) and len(listed) == len(variables), "listed variables")
    for v in listed:
        for part in (type(v).__name__, str(a.get_value(v))):
            k = text.find(part, at)
            ctx.check(k >= 0, "printed assignments lack a variable", missing=part, text=text[:3000])
            at = k + len(part)
        ctx.count("printed")
    ctx.nontrivial(("printed", tuple(types)))


def run_case(ctx: Ctx):
    [trees, printed, trees, stopwatch][ctx.case % 4](ctx)
