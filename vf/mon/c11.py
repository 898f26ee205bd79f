"""Linear subproblem solvers against dense normal equations."""
import numpy as np
import jax
from jax import numpy as jnp
import jaxfg

from .. import sp
from ..core import Ctx

KNOWN = "cg-damping-repeated-coordinates"


def reference_pcg(H, g, M, tol, maxiter):
    """Textbook preconditioned conjugate gradient: relative residual it reaches."""
    x, r = np.zeros_like(g), g.copy()
    z = r / M
    p, gamma = z, r @ z
    for _ in range(maxiter):
        if np.linalg.norm(r) <= tol * np.linalg.norm(g):
            break
        Hp = H @ p
        a = gamma / (p @ Hp)
        x, r = x + a * p, r - a * Hp
        z = r / M
        gamma, old = r @ z, gamma
        p = z + gamma / old * p
    return np.linalg.norm(g - H @ x) / np.linalg.norm(g)


_solve = jax.jit(lambda s, A, g, l, i: s.solve_subproblem(A=A, ATb=g, lambd=l, iteration=i))


def run_case(ctx: Ctx):
    rng = ctx.rng
    dtype = np.float64 if ctx.x64 else np.float32
    n = int(rng.integers(1, 14))
    if rng.random() < 0.12:
        n = int(rng.integers(25, 70))
    m = n + int(rng.integers(0, 12)) if rng.random() < 0.8 else int(rng.integers(1, n + 1))
    kind = ctx.pick(["sorted", "unsorted", "repeated"])
    nnz = int(rng.integers(max(1, n), 3 * max(m, n) + 2))
    rows, cols = sp.pattern(rng, m, n, nnz, kind)
    if m >= n and rng.random() < 0.8:
        # A diagonal to make the system well conditioned.
        perm = rng.permutation(m)[:n]
        rows, cols = np.concatenate([rows, perm]), np.concatenate([cols, np.arange(n)])
        order = rng.permutation(len(rows)) if kind != "sorted" else np.lexsort((cols, rows))
        rows, cols = rows[order], cols[order]
        strong = True
    else:
        strong = False
    if kind != "repeated":
        _, first = np.unique(rows * n + cols, return_index=True)
        first = np.sort(first)
        rows, cols = rows[first], cols[first]
    dead = rng.random() < 0.3 and n > 1
    if dead:
        k = int(rng.integers(n))  # A parameter without influence
        keep = cols != k
        rows, cols = rows[keep], cols[keep]
        if not len(rows):
            rows, cols = np.array([0]), np.array([(k + 1) % n])
    repeated = len(set(zip(rows.tolist(), cols.tolist()))) < len(rows)
    jitted = rng.random() < 0.7
    jax_arrays = bool(rng.random() < 0.5)
    for inst in range(5):
        vals = rng.normal(size=len(rows)) * (0.3 if strong else 1.0)
        if strong:
            diag = np.isin(np.arange(len(rows)), [np.flatnonzero(cols == c)[-1] for c in range(n) if np.any(cols == c)])
            vals[diag] += np.where(vals[diag] > 0, 2.0, -2.0)
        if rng.random() < 0.3:
            vals[rng.random(len(vals)) < 0.2] = 0.0  # Explicit zeros
        vals = vals * 10.0 ** (rng.uniform(-1, 1) if rng.random() < 0.7 else rng.uniform(-5, 3))
        graded = rng.random() < 0.25
        if graded:
            vals = vals * (10.0 ** rng.uniform(-2.5, 2.5, size=n))[cols]  # Parameters of different magnitudes
            ctx.count("graded")
        vals = vals.astype(dtype)
        A = sp.make(vals, rows, cols, (m, n), jax_arrays)
        D = sp.dense(vals, rows, cols, (m, n)).astype(float)
        H = D.T @ D
        lam = float(rng.choice([0.0, 0.0, 1e-3, 0.1, 2.0, 30.0]))
        b = rng.normal(size=m)
        if rng.random() < 0.05:
            b[:] = 0
        g = (D.T @ b).astype(dtype)
        gd = g.astype(float)
        it = int(rng.integers(0, 30))
        free = np.diag(H) == 0  # Zero columns
        info = dict(values=vals, rows=rows, cols=cols, shape=(m, n), g=g, damping=lam, iteration=it)
        ctx.note(**info)

        def call(solver):
            if jitted:
                return np.asarray(_solve(solver, A, g, lam, it), float)
            return np.asarray(solver.solve_subproblem(A=A, ATb=jnp.asarray(g) if jax_arrays else g, lambd=lam, iteration=it), float)

        def common(x, label):
            ctx.check(x.shape == (n,) and np.all(np.isfinite(x)), f"{label}: not a finite vector", x=x, **info)
            ctx.check(np.all(x[free] == 0), f"{label}: update of a parameter without influence", x=x, **info)

        # Direct solver: (H + (lam + eps) I) x = g with the documented eps = 1e-5.
        x = call(jaxfg.sparse.CholmodSolver())
        common(x, "direct")
        rounding = ctx.tol(1e-11, 2e-5) * (np.linalg.norm(H) + lam) * np.linalg.norm(x)
        res = np.linalg.norm((H + lam * np.eye(n)) @ x - gd)
        ctx.check(res <= 2e-5 * np.linalg.norm(x) + rounding + 1e-30, "direct: normal equations not solved", residual=res, x=x, H=H, **info)
        # The same equation by equation: the error of each is relative to its own terms.
        d = np.sqrt(np.diag(H) + lam + 1e-5)
        each = np.abs((H + lam * np.eye(n)) @ x - gd)
        allowed = 2e-5 * np.abs(x) + ctx.tol(1e-11, 2e-5) * d * (d @ np.abs(x)) + ctx.tol(1e-14, 1e-6) * np.abs(gd) + 1e-30
        ctx.check(np.all(each <= allowed), "direct: an equation is not solved", residual=each, allowed=allowed, x=x, H=H, **info)
        ctx.count("direct")
        ctx.count("direct_many", n > 20)

        # Conjugate gradient: (H + lam diag(H)) x = g to a relative residual.
        Hd = H + lam * np.diag(np.diag(H))
        ss = np.zeros(n)
        np.add.at(ss, cols, vals.astype(float) ** 2)
        Hs = H + lam * np.diag(ss)
        live = ~free
        if not live.any():
            continue
        sub = Hd[np.ix_(live, live)]
        cond = np.linalg.cond(sub)
        for name in ("cg", "inexact"):
            if name == "cg":
                tol = float(rng.choice(ctx.tol([1e-2, 1e-5, 1e-8], [1e-1, 1e-2, 1e-4])))
                solver = jaxfg.sparse.ConjugateGradientSolver(tolerance=tol)
            else:
                eta = float(rng.choice([1e-2, 0.3, 0.9]))
                solver = jaxfg.sparse.InexactStepConjugateGradientSolver(inexact_step_eta=eta)
                tol = eta / (it + 1)
            x = call(solver)
            common(x, name)
            gn = np.linalg.norm(gd)
            if gn == 0:
                ctx.check(np.all(x == 0), f"{name}: non-zero solution for zero right-hand side", x=x, **info)
                continue
            if cond > ctx.tol(1e5, 1e2):
                ctx.count("ill_conditioned")
                continue
            pre = np.where(ss == 0, 1.0, ss)
            bound = tol * 1.01 + ctx.tol(1e-11, 1e-5) * cond ** 0.5
            # The iteration count is limited by the size; leave one to spare.
            limit = n if n <= 2 else n - 1
            if max(reference_pcg(Hd, gd, pre, tol, limit), reference_pcg(Hs, gd, pre, tol, limit)) > bound:
                ctx.count("not_reached")
                continue
            res = np.linalg.norm(Hd @ x - gd) / gn
            if res > bound:
                if repeated and lam > 0 and np.linalg.norm(Hs @ x - gd) / gn <= bound:
                    ctx.known_finding(KNOWN, "the CG solvers damp repeated coordinates with the sum of squared entries instead of the squared sum")
                    ctx.count("known_form")
                    continue
                ctx.fail(f"{name}: relative residual {res:.3g} above the tolerance {tol:.3g}", x=x, cond=cond, solver=name, tolerance=tol, **info)
            ctx.count("checks")
            ctx.count(f"{name}_{'damped' if lam else 'undamped'}")
            ctx.count("cg_many", n > 20)
    ctx.count(f"patterns_{kind}")
    if dead:
        ctx.count("patterns_with_free_parameters")
    ctx.nontrivial((m, n, kind, rows.tolist(), cols.tolist()))
    ctx.sample(dict(shape=(m, n), pattern=kind, entries=len(rows), damping=lam, jitted=jitted))
