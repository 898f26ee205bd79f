"""Parsing of generated and shipped g2o files."""
import contextlib
import importlib.util
import io
import os
import pathlib
import tempfile

import numpy as np
import jax
from jax import numpy as jnp
import jaxfg
from jaxfg.core import StackedFactorGraph, VariableAssignments

from .. import graphs, lie, zoo
from ..core import Ctx

REPO = pathlib.Path(os.environ["VF_REPO"])
SCRIPT = REPO / "scripts/_g2o_utils.py"
_spec = importlib.util.spec_from_file_location("_g2o_utils", SCRIPT)
_module = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(_module)
VERTEX = {"SE2": "VERTEX_SE2", "SE3": "VERTEX_SE3:QUAT"}
EDGE = {"SE2": "EDGE_SE2", "SE3": "EDGE_SE3:QUAT"}


def parse(text, **kw):
    with tempfile.TemporaryDirectory() as d:
        path = pathlib.Path(d) / "graph.g2o"
        path.write_text(text)
        with contextlib.redirect_stderr(io.StringIO()):
            return _module.parse_g2o(path if len(text) % 2 else str(path), **kw)


def number(rng, x):
    style = rng.integers(4)
    return {0: f"{x:.9f}", 1: f"{x:.12g}", 2: f"{x:.10e}", 3: repr(float(x))}[int(style)]


def pose_tokens(rng, name, flat):
    """Written fields, and the pose they stand for."""
    if name == "SE2":
        theta = float(np.arctan2(flat[1], flat[0])) + 2 * np.pi * int(rng.choice([0, 0, 0, 1, -1]))
        toks = [number(rng, v) for v in (flat[2], flat[3], theta)]
        x, y, t = map(float, toks)
        return toks, np.array([np.cos(t), np.sin(t), x, y])
    q = flat[:4] * (1 if rng.random() < 0.5 else -1)
    toks = [repr(float(v)) for v in (*flat[4:], q[1], q[2], q[3], q[0])]
    return toks, np.concatenate([q, flat[4:]])


class File:
    def __init__(self, ctx, name, n, edges):
        rng = ctx.rng
        self.name, self.g = name, lie.SE2 if name == "SE2" else lie.SE3
        s = zoo.SPECS[name]
        self.vertices, self.edges = [], []
        vlines, elines = [], []
        for i in range(n):
            toks, flat = pose_tokens(rng, name, s.rand(rng, 1.5))
            vlines.append([VERTEX[name], str(i), *toks])
            self.vertices.append(flat)
        for a, b in edges:
            toks, flat = pose_tokens(rng, name, s.rand(rng, 0.8))
            W = zoo.rand_W(rng, s.ldim) * 10.0 ** rng.uniform(-1, 2)
            info = W.T @ W
            if rng.random() < 0.3:
                info = np.diag(np.diag(info))
            itoks = [repr(float(info[i, j])) for i in range(s.ldim) for j in range(i, s.ldim)]
            elines.append([EDGE[name], str(a), str(b), *toks, *itoks])
            self.edges.append((a, b, flat, info))
        if rng.random() < 0.5:
            # Edges directly after the vertices they connect, in a stable order.
            order = sorted(range(len(elines)), key=lambda k: max(self.edges[k][:2]))
            self.edges = [self.edges[k] for k in order]
            self.lines, k = [], 0
            for i, v in enumerate(vlines):
                self.lines.append(v)
                while k < len(order) and max(self.edges[k][:2]) <= i:
                    self.lines.append(elines[order[k]])
                    k += 1
        else:
            self.lines = vlines + elines

    def text(self, rng, messy):
        out = []
        for toks in self.lines:
            if not messy:
                out.append(" ".join(toks))
                continue
            line = (" " * int(rng.integers(1, 4))).join(toks)
            out.append(" " * int(rng.integers(0, 3)) + line + " " * int(rng.integers(0, 3)))
            if rng.random() < 0.3:
                out.append(" " * int(rng.integers(0, 3)))
        end = "" if messy and rng.random() < 0.3 else "\n"
        sep = "\r\n" if messy and rng.random() < 0.2 else "\n"
        return sep.join(out) + end


def weight(ctx, factor, n):
    dt = np.float64 if ctx.x64 else np.float32
    r = factor.noise_model.whiten_residual_vector(jnp.zeros(n, dtype=dt))
    return np.asarray(factor.noise_model.whiten_jacobian(jnp.eye(n, dtype=dt), r), float)


def judge(ctx, data, name, vertices, edges, limit):
    """Compare parsed data with the written vertices and edges."""
    s = zoo.SPECS[name]
    g = s.group
    keep = len(vertices) if limit is None else min(limit, len(vertices))
    want_edges = [e for e in edges if limit is None or (e[0] < limit and e[1] < limit)]
    tol = ctx.tol(1e-9, 3e-6)
    variables = list(data.initial_poses)
    ctx.check(len(variables) == keep, "number of poses", got=len(variables), want=keep, limit=limit)
    for i, (v, flat) in enumerate(zip(variables, vertices)):
        ctx.check(type(v) is s.cls, "type of a pose variable", got=type(v))
        ctx.close(s.from_value(data.initial_poses[v]), flat, f"initial pose {i}", tol, tol)
        ctx.count("vertices")
    between = [f for f in data.factors if isinstance(f, jaxfg.geometry.BetweenFactor)]
    priors = [f for f in data.factors if isinstance(f, jaxfg.geometry.PriorFactor)]
    ctx.check(len(between) + len(priors) == len(data.factors), "unexpected kinds of factors", kinds=[type(f).__name__ for f in data.factors])
    ctx.check(len(between) == len(want_edges), "number of edges", got=len(between), want=len(want_edges), limit=limit)
    for k, (f, (a, b, flat, info)) in enumerate(zip(between, want_edges)):
        ctx.check(f.variables == (variables[a], variables[b]), f"vertices of edge {k}", want=(a, b),
                  got=[variables.index(v) if v in variables else None for v in f.variables])
        ctx.close(s.canon(s.from_value(f.T_a_b)), s.canon(flat), f"relative pose of edge {k}", tol, tol)
        W = weight(ctx, f, s.ldim)
        ctx.close(W.T @ W, info, f"information matrix of edge {k}", ctx.tol(1e-9, 1e-4), 0, got_root=W)
        ctx.count("edges")
    ctx.check(len(priors) == 1 and priors[0].variables == (variables[0],), "prior on the first pose", count=len(priors))
    ctx.close(s.canon(s.from_value(priors[0].mu)), s.canon(vertices[0]), "mean of the prior", tol, tol)
    W = weight(ctx, priors[0], s.ldim)
    ctx.check(np.all(np.isfinite(W)) and np.linalg.svd(W, compute_uv=False)[-1] > 1e-3, "weight of the prior", weight=W)
    return variables, between


def generated(ctx):
    rng = ctx.rng
    name = ctx.pick(["SE2", "SE3"])
    n = int(rng.integers(1, 12))
    edges = []
    if n > 1:
        for _ in range(int(rng.integers(0, 2 * n))):
            a, b = rng.permutation(n)[:2]
            edges.append((int(a), int(b)))
        if rng.random() < 0.5:
            edges = [(i, i + 1) for i in range(n - 1)] + edges
    f = File(ctx, name, n, edges)
    text = f.text(rng, messy=bool(rng.random() < 0.6))
    ctx.note(text=text[:3000])
    variables, _ = judge(ctx, parse(text), name, f.vertices, f.edges, None)
    for limit in {1, n, n + 3, int(rng.integers(1, n + 1))}:
        judge(ctx, parse(text, pose_count_limit=limit), name, f.vertices, f.edges, limit)
        ctx.count("limits")
    ctx.nontrivial((name, n, tuple(edges), len(text)))
    ctx.sample(dict(type=name, vertices=n, edges=edges))
    if ctx.case % 6 == 0 and n > 1:
        # The whole graph, evaluated at the initial poses.
        data = parse(text)
        graph = StackedFactorGraph.make(data.factors)
        poses = {v: data.initial_poses[v] for v in graph.get_variables()}
        r = np.asarray(graph.compute_whitened_residual_vector(VariableAssignments.make_from_dict(poses)), float)
        want = 0.0
        ok = True
        for a, b, flat, info in f.edges:
            e = f.g.log(f.g.mul(f.g.inv(f.g.mul(f.g.inv(f.vertices[a]), f.vertices[b])), f.g.normalize(flat)))
            ok &= np.linalg.norm(e[2:] if name == "SE2" else e[3:]) < 3.0
            want += e @ info @ e
        if ok:
            ctx.close(r @ r, want, "cost at the initial poses", ctx.tol(1e-6, 1e-2), ctx.tol(1e-6, 1e-2))
            ctx.count("graphs")


def malformed(ctx):
    rng = ctx.rng
    name = ctx.pick(["SE2", "SE3"])
    n = int(rng.integers(2, 6))
    edges = [(i, i + 1) for i in range(n - 1)]
    f = File(ctx, name, n, edges)
    parse(f.text(rng, False))
    vs = [i for i, l in enumerate(f.lines) if l[0] == VERTEX[name]]
    es = [i for i, l in enumerate(f.lines) if l[0] == EDGE[name]]
    pick = lambda seq: seq[int(rng.integers(len(seq)))]
    dim = zoo.SPECS[name].ldim

    def variant(label, edit):
        lines = [list(l) for l in f.lines]
        edit(lines)
        text = "\n".join(" ".join(l) for l in lines) + "\n"
        ctx.must_raise(lambda: parse(text), f"malformed file ({label})", text=text[:2000])

    def drop(i, k):
        def edit(lines):
            del lines[i][k]
        return edit

    def put(i, k, tok):
        def edit(lines):
            lines[i][k] = tok
        return edit

    v, e = pick(vs), pick(es)
    variant("vertex with a missing field", drop(v, int(rng.integers(2, len(f.lines[v])))))
    variant("vertex with an extra field", lambda ls: ls[v].append("0.5"))
    variant("vertex with a word", put(v, int(rng.integers(2, len(f.lines[v]))), pick(["abc", "1.2.3", "--1", "0x"])))
    variant("vertex with a repeated or skipped index", put(v, 1, str(int(f.lines[v][1]) + pick([1, 2, 7]))))
    variant("vertex with a fractional index", put(v, 1, "0.5"))
    variant("edge with missing information", lambda ls: ls[e].__delitem__(slice(len(ls[e]) - int(rng.integers(1, dim)), None)))
    variant("edge with extra information", lambda ls: ls[e].extend(["0.0"] * int(rng.integers(1, 4))))
    variant("edge without information", lambda ls: ls[e].__delitem__(slice(3 + (3 if name == "SE2" else 7), None)))
    variant("edge with a word", put(e, int(rng.integers(3, len(f.lines[e]))), "abc"))
    variant("edge to a missing vertex", put(e, int(rng.integers(1, 3)), str(n + int(rng.integers(0, 5)))))
    variant("edge to a negative vertex", put(e, int(rng.integers(1, 3)), str(-int(rng.integers(1, n + 1)))))
    variant("edge with a fractional vertex", put(e, 1, "0.0"))
    variant("information that is not positive", put(e, len(f.lines[e]) - 1, "-1.0"))
    tag = pick(["VERTEX_XY", "EDGE_SE2_XY", "FIX", "VERTEX_SE3", "EDGE_SE3", "vertex_se2", "#", "VERTEX_SE2:QUAT", "PARAMS_SE3OFFSET"])
    variant(f"unknown line type {tag}", lambda ls: ls.insert(int(rng.integers(len(ls) + 1)), [tag, "0", "0", "0", "0"]))
    other = "SE3" if name == "SE2" else "SE2"
    variant("line of the other dimension's tag", put(v, 0, VERTEX[other]))
    variant("edge of the other dimension's tag", put(e, 0, EDGE[other]))
    ctx.nontrivial(("malformed", name, n, v, e))


def shipped(ctx):
    """The repository's own data sets, against an independent reading."""
    rng = ctx.rng
    files = sorted((REPO / "scripts/data").glob("*.g2o"))
    path = files[int(rng.integers(len(files)))]
    limit = int(rng.integers(5, 60))
    vertices, edges, name, lines = [], [], None, []
    for line in path.read_text().splitlines():
        t = line.split()
        if not t:
            continue
        if t[0].startswith("VERTEX"):
            name = "SE2" if t[0] == "VERTEX_SE2" else "SE3"
            x = np.array(t[2:], float)
            if int(t[1]) < limit + 5:
                vertices.append(np.array([np.cos(x[2]), np.sin(x[2]), x[0], x[1]]) if name == "SE2" else np.concatenate([[x[6]], x[3:6], x[:3]]))
                lines.append(line)
        elif int(t[1]) < limit + 5 and int(t[2]) < limit + 5:
            x = np.array(t[3:], float)
            if name == "SE2":
                pose, rest, d = np.array([np.cos(x[2]), np.sin(x[2]), x[0], x[1]]), x[3:], 3
            else:
                pose, rest, d = np.concatenate([[x[6]], x[3:6], x[:3]]), x[7:], 6
            info = np.zeros((d, d))
            k = 0
            for i in range(d):
                for j in range(i, d):
                    info[i, j] = info[j, i] = rest[k]
                    k += 1
            edges.append((int(t[1]), int(t[2]), pose, info))
            lines.append(line)
    ctx.note(file=path.name, limit=limit)
    judge(ctx, parse("\n".join(lines), pose_count_limit=limit), name, vertices, edges, limit)
    ctx.count("shipped")
    ctx.nontrivial(("shipped", path.name, limit))


def long_file(ctx):
    """Files of thousands of poses are read whole unless a limit is given."""
    rng = ctx.rng
    n = int(rng.integers(1500, 4000))
    text, flats = [], []
    for i in range(n):
        x, y, t = (float(k) for k in rng.normal(size=3))
        text.append(f"VERTEX_SE2 {i} {x!r} {y!r} {t!r}")
        flats.append(np.array([np.cos(t), np.sin(t), x, y]))
    edges = []
    for a, b in [(0, 1), (n - 1, 0), (n - 2, n - 1), *(rng.choice(n, size=2, replace=False) for _ in range(5))]:
        x, y, t = (float(k) for k in rng.normal(size=3))
        text.append(f"EDGE_SE2 {a} {b} {x!r} {y!r} {t!r} 4.0 0.0 0.0 9.0 0.0 16.0")
        edges.append((int(a), int(b), np.array([np.cos(t), np.sin(t), x, y]), np.diag([4.0, 9.0, 16.0])))
    ctx.note(poses=n)
    judge(ctx, parse("\n".join(text) + "\n"), "SE2", flats, edges, None)
    ctx.count("long_files")
    ctx.nontrivial(("long", n))


def run_case(ctx: Ctx):
    if ctx.case % 25 == 12:
        return long_file(ctx)
    [generated, generated, malformed, generated, shipped][ctx.case % 5](ctx)
