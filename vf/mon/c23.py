"""Structural invariants of storage layouts."""
import numpy as np
from jaxfg.core import StorageLayout

from .. import graphs, zoo
from ..core import Ctx


def check_layout(ctx, layout, given, local):
    distinct = list(dict.fromkeys(given))
    dim = lambda v: zoo.spec_of(v).ldim if local else zoo.spec_of(v).pdim
    vs = list(layout.get_variables())
    ctx.check(len(vs) == len(set(vs)) and set(vs) == set(distinct), "variables of the layout", count=len(vs), want=len(distinct))
    ctx.check(layout.local_flag is local or bool(layout.local_flag) == local, "local flag")
    total = sum(dim(v) for v in distinct)
    ctx.check(layout.dim == total, "total dimension", got=layout.dim, want=total)
    cover = np.zeros(total, int)
    for v in vs:
        i = layout.index_from_variable[v]
        ctx.check(0 <= i and i + dim(v) <= total, "block outside of the storage range", index=i, dim=dim(v))
        cover[i : i + dim(v)] += 1
    ctx.check(np.all(cover == 1), "blocks overlap or leave gaps", cover=cover)
    starts = [layout.index_from_variable[v] for v in vs]
    ctx.check(starts == sorted(starts) and len(set(starts)) == len(starts), "variables are not listed in storage order")
    types = list(layout.get_variable_types())
    ctx.check(len(types) == len(set(types)) and set(types) == {type(v) for v in distinct}, "types of the layout")
    ts = [layout.index_from_variable_type[t] for t in types]
    ctx.check(ts == sorted(ts), "types are not listed in storage order")
    for t in types:
        same = [v for v in vs if type(v) is t]
        ctx.check(layout.count_from_variable_type[t] == len(same), "count of a type", got=layout.count_from_variable_type[t], want=len(same))
        run = [layout.index_from_variable[v] for v in same]
        start = layout.index_from_variable_type[t]
        ctx.check(run == [start + k * dim(same[0]) for k in range(len(same))], "variables of a type are not one contiguous run",
                  run=run, start=start)
    ctx.count("layouts")
    ctx.count("layout_variables", len(vs))


def run_case(ctx: Ctx):
    rng = ctx.rng
    for local in (False, True):
        empty = StorageLayout.make([], local=local)
        ctx.check(empty.dim == 0 and list(empty.get_variables()) == [], "layout without variables", dim=empty.dim)
    for rep in range(8):
        types = graphs.gen_types(rng, int(rng.integers(1, 9)), max_count=[2, 5, 12][rep % 3])
        variables = [zoo.SPECS[t].cls() for t in types]
        given = list(variables)
        if rep % 3 == 2:
            given += [variables[i] for i in rng.integers(len(variables), size=3)]
            rng.shuffle(given)
        ctx.note(types=[zoo.spec_of(v).name for v in given])
        for local in (False, True):
            make = lambda vs: StorageLayout.make(vs, local=local)
            layout = make(given) if rng.random() < 0.5 else make(iter(given))
            check_layout(ctx, layout, given, local)
            again = make(list(given))
            ctx.check(layout == again and hash(layout) == hash(again), "equal inputs give unequal layouts")
            ctx.check(not (layout != again), "inequality of equal layouts")
            other_local = StorageLayout.make(given, local=not local)
            ctx.check(layout != other_local, "global and local layouts compare equal")
            if len(variables) > 1:
                ctx.check(layout != make(variables[:-1]), "layouts over different variables compare equal")
                fresh = variables[:-1] + [type(variables[-1])()]
                ctx.check(layout != make(fresh), "layouts over different variables of the same types compare equal")
            same_type = [i for i, v in enumerate(variables) if type(v) is type(variables[0])]
            if len(same_type) > 1:
                sw = list(variables)
                sw[same_type[0]], sw[same_type[1]] = sw[same_type[1]], sw[same_type[0]]
                ctx.check(make(variables) != make(sw), "layouts with swapped variables compare equal")
        ctx.check(StorageLayout.make(given) == StorageLayout.make(given, local=False), "default layout is global")
        if len(set(types)) > 1:
            ctx.nontrivial(tuple(types))
    ctx.sample({"types": types})
