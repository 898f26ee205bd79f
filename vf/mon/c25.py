"""Runs of the pose-graph script, judged by the curves it draws."""
import contextlib
import dataclasses
import io
import os
import pathlib
import runpy
import sys
import tempfile

os.environ.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "mpl"))
import matplotlib.pyplot as plt
import numpy as np
import jaxfg
from jaxfg.core import StackedFactorGraph, VariableAssignments

from .. import lie, zoo
from ..core import Ctx, Skip
from .c19 import EDGE, VERTEX, parse
from .c21 import captured

SCRIPTS = pathlib.Path(os.environ["VF_REPO"]) / "scripts"
SOLVERS = {
    "GAUSS_NEWTON": lambda: jaxfg.solvers.GaussNewtonSolver(verbose=False),
    "FIXED_ITERATION_GAUSS_NEWTON": lambda: jaxfg.solvers.FixedIterationGaussNewtonSolver(verbose=False, unroll=False),
    "LEVENBERG_MARQUARDT": lambda: jaxfg.solvers.LevenbergMarquardtSolver(verbose=False),
    "DOGLEG": lambda: jaxfg.solvers.DoglegSolver(verbose=False),
}


def script(name, args):
    """Run a script as from the command line. Returns its output and what it drew."""
    argv, path = sys.argv, list(sys.path)
    shown = plt.show
    plt.close("all")
    try:
        sys.argv = [str(SCRIPTS / name), *map(str, args)]
        sys.path.insert(0, str(SCRIPTS))
        sys.modules.pop("_g2o_utils", None)
        plt.show = lambda *a, **k: None
        with captured() as box, contextlib.redirect_stderr(io.StringIO()):
            runpy.run_path(sys.argv[0], run_name="__main__")
        curves = {}
        for num in plt.get_fignums():
            for ax in plt.figure(num).axes:
                for line in ax.get_lines():
                    xyz = line.get_data_3d() if hasattr(line, "get_data_3d") else line.get_data()
                    curves.setdefault(line.get_label(), []).append(np.array([np.asarray(c, float) for c in xyz]).T)
        return box["text"], curves
    finally:
        sys.argv, sys.path[:], plt.show = argv, path, shown
        plt.close("all")


class Problem:
    def __init__(self, ctx, outliers):
        rng = ctx.rng
        self.name = name = ctx.pick(["SE2", "SE3"])
        self.g = g = lie.SE2 if name == "SE2" else lie.SE3
        self.spec = s = zoo.SPECS[name]
        n = int(rng.integers(3, 8))
        step = lambda scale: g.exp(rng.normal(size=s.ldim) * scale)
        truth = [s.rand(rng, 1.0)]
        while len(truth) < n:
            truth.append(g.mul(truth[-1], step(0.6)))
        self.start = [self.written(g.mul(t, step(0.05))) for t in truth]
        pairs = [(i, i + 1) if rng.random() < 0.7 else (i + 1, i) for i in range(n - 1)]
        for _ in range(int(rng.integers(1, n + 1))):
            a, b = rng.permutation(n)[:2]
            pairs.append((int(a), int(b)))
        self.edges = []
        for k, (a, b) in enumerate(pairs):
            z = g.mul(g.mul(g.inv(truth[a]), truth[b]), step(0.02))
            if outliers and k >= n - 1 and rng.random() < 0.5:
                z = g.mul(z, step(0.3))
            W = zoo.rand_W(rng, s.ldim) * 10.0 ** rng.uniform(0, 1)
            self.edges.append((a, b, self.written(z), W.T @ W))
        order = rng.permutation(len(self.edges))
        self.edges = [self.edges[k] for k in order]

    def written(self, flat):
        """The pose as it will be read back."""
        flat = np.asarray(flat, float)
        if self.name == "SE2":
            t = float(repr(float(np.arctan2(flat[1], flat[0]))))
            return np.array([np.cos(t), np.sin(t), flat[2], flat[3]])
        return np.concatenate([flat[:4] / np.linalg.norm(flat[:4]), flat[4:]])

    def tokens(self, flat):
        if self.name == "SE2":
            vals = (flat[2], flat[3], np.arctan2(flat[1], flat[0]))
        else:
            vals = (*flat[4:], flat[1], flat[2], flat[3], flat[0])
        return [repr(float(v)) for v in vals]

    def text(self):
        d = self.spec.ldim
        lines = [[VERTEX[self.name], str(i), *self.tokens(f)] for i, f in enumerate(self.start)]
        for a, b, z, info in self.edges:
            lines.append([EDGE[self.name], str(a), str(b), *self.tokens(z), *(repr(float(info[i, j])) for i in range(d) for j in range(i, d))])
        return "\n".join(" ".join(l) for l in lines) + "\n"

    def positions(self, flats):
        return np.array([f[2:] if self.name == "SE2" else f[4:] for f in flats])

    def residual(self, flats):
        g = self.g
        out = []
        for a, b, z, info in self.edges:
            e = g.log(g.mul(g.inv(g.mul(g.inv(flats[a]), flats[b])), z))
            out.append(np.linalg.cholesky(info).T @ e)
        return np.concatenate(out)

    def minimum(self):
        """Least squares over all poses but the first one, which its prior holds."""
        g, d = self.g, self.spec.ldim
        flats = [np.array(f) for f in self.start]
        n = len(flats) - 1
        move = lambda x: flats[:1] + [g.mul(f, g.exp(x[i * d : (i + 1) * d])) for i, f in enumerate(flats[1:])]
        for _ in range(40):
            r = self.residual(flats)
            J = np.stack([(self.residual(move(h)) - self.residual(move(-h))) / 2e-5 for h in 1e-5 * np.eye(n * d)], axis=1)
            if np.linalg.cond(J) > 1e4:
                raise Skip("conditioning")
            x = -np.linalg.lstsq(J, r, rcond=None)[0]
            flats = [g.normalize(f) for f in move(x)]
            if np.abs(x).max() < 1e-9:
                return flats
        raise Skip("reference did not converge")


def library(problem, data, solver, delta):
    """The parsed problem, solved through the library's interface."""
    s = problem.spec
    factors = data.factors
    if delta is not None:
        factors = [dataclasses.replace(f, noise_model=jaxfg.noises.HuberWrapper(wrapped=f.noise_model, delta=delta)) for f in factors]
    solution = StackedFactorGraph.make(factors).solve(VariableAssignments.make_from_dict(data.initial_poses), SOLVERS[solver]())
    return problem.positions([s.from_value(solution.get_value(v)) for v in data.initial_poses])


def solve(ctx):
    rng = ctx.rng
    solver = list(SOLVERS)[ctx.case % 4]
    delta = None if rng.random() < 0.5 else float(np.round(rng.uniform(0.3, 3.0), 3))
    problem = Problem(ctx, outliers=delta is not None)
    with tempfile.TemporaryDirectory() as d:
        path = pathlib.Path(d) / "poses.g2o"
        path.write_text(problem.text())
        args = ["--g2o-path", path]
        if solver != "GAUSS_NEWTON" or rng.random() < 0.5:
            args += ["--solver-type", solver]
        if delta is not None:
            args += ["--huber-delta", delta]
        ctx.note(args=args[2:], text=problem.text()[:3000])
        want = problem.minimum() if delta is None else None
        text, curves = script("pose_graph_g2o.py", args)
    ctx.check(set(curves) >= {"Initial", "Optimized"} and all(len(c) == 1 for c in curves.values()), "curves drawn", curves=list(curves))
    tol = ctx.tol(1e-9, 1e-5)
    ctx.close(curves["Initial"][0], problem.positions(problem.start), "drawn initial positions", tol, tol)
    got = curves["Optimized"][0]
    if want is not None:
        ctx.close(got, problem.positions(want), "drawn solution and the least-squares solution", 0, 2e-3, solver=solver)
        ctx.count("least_squares")
    else:
        ctx.count("huber")
    same = library(problem, parse(problem.text()), solver, delta)
    ctx.close(got, same, "drawn solution and the same problem solved directly", 0, ctx.tol(1e-4, 2e-3), solver=solver, delta=delta)
    name = type(SOLVERS[solver]()).__name__
    others = [type(f()).__name__ for f in SOLVERS.values() if type(f()).__name__ != name]
    ctx.check(f"[{name}]" in text and not any(f"[{o}]" in text for o in others), "solver named in the progress reports", want=name, text=text[:1500])
    ctx.count("runs")
    ctx.count(f"runs_{problem.name}")
    ctx.count(f"runs_{solver.lower()}")
    ctx.nontrivial((problem.name, solver, delta, len(problem.start), tuple(e[:2] for e in problem.edges)))
    ctx.sample(dict(type=problem.name, solver=solver, delta=delta, poses=len(problem.start), edges=len(problem.edges)))


def rejected(ctx):
    problem = Problem(ctx, outliers=False)

    def expect(args, what):
        def call():
            try:
                return script("pose_graph_g2o.py", args)
            except SystemExit as e:
                if e.code not in (0, None):
                    raise RuntimeError("exit") from e
                return "normal exit"

        ctx.must_raise(call, what, args=args)

    with tempfile.TemporaryDirectory() as d:
        path = pathlib.Path(d) / "poses.g2o"
        path.write_text(problem.text())
        expect(["--g2o-path", pathlib.Path(d) / "missing.g2o"], "missing file")
        expect(["--g2o-path", path, "--solver-type", "NEWTON"], "unknown solver")
        expect(["--g2o-path", path, "--huber-delta", "abc"], "threshold that is not a number")
        expect(["--g2o-path", path, "--unknown", "1"], "unknown option")
        path.write_text(problem.text() + "EDGE_XY 0 1 0.0\n")
        expect(["--g2o-path", path], "malformed file")
    ctx.nontrivial(("rejected", len(problem.edges)))


def run_case(ctx: Ctx):
    (rejected if ctx.case % 12 == 11 else solve)(ctx)
