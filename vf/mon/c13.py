"""Sparse matrix operations against dense ones."""
import numpy as np
import scipy.sparse
import jax
from jax import numpy as jnp
from jaxfg.sparse import SparseCooMatrix

from .. import sp
from ..core import Ctx


def rand_values(ctx, k, kind):
    rng = ctx.rng
    if kind == "int":
        return rng.integers(-9, 10, size=k)
    v = rng.normal(size=k) * 10.0 ** rng.integers(-3, 4)
    if kind == "zeros" and k:
        v[rng.random(k) < 0.4] = 0.0
    return v.astype(np.float64 if ctx.x64 else np.float32)


def run_large(ctx):
    """Few entries at coordinates that do not fit into small integers."""
    rng = ctx.rng
    for _ in range(3):
        m, n = (int(10 ** rng.uniform(2, 6)) + int(rng.integers(1, 100)) for _ in range(2))
        k = int(rng.integers(1, 400))
        rows, cols = rng.integers(m, size=k), rng.integers(n, size=k)
        for edge in (127, 128, 255, 256, 32767, 32768, 65535, 65536, m - 1):
            if edge < m and rng.random() < 0.5:
                rows[int(rng.integers(k))] = edge
        for edge in (127, 128, 255, 256, 32767, 32768, 65535, 65536, n - 1):
            if edge < n and rng.random() < 0.5:
                cols[int(rng.integers(k))] = edge
        vals = rng.integers(-99, 100, size=k).astype(np.float64 if ctx.x64 else np.float32)
        S = scipy.sparse.coo_matrix((vals, (rows, cols)), shape=(m, n))
        x, y = rng.integers(-9, 10, size=n).astype(vals.dtype), rng.integers(-9, 10, size=m).astype(vals.dtype)
        ctx.note(shape=(m, n), values=vals, rows=rows, cols=cols)
        A = sp.make(vals, rows, cols, (m, n), jax_arrays=bool(rng.random() < 0.5), index_dtype=ctx.pick([np.int32, np.int64]))
        for label, M in (("", A), (" of a matrix from SciPy", SparseCooMatrix.from_scipy_coo_matrix(S)),
                         (" of a matrix through SciPy", SparseCooMatrix.from_scipy_coo_matrix(A.as_scipy_coo_matrix()))):
            ctx.check(tuple(M.shape) == (m, n) and tuple(M.T.shape) == (n, m), f"large shape{label}")
            ctx.close(M @ x, S @ x, f"large product{label}", 0, 1e-6, shape=(m, n))
            ctx.close(M.T @ y, S.T @ y, f"large transposed product{label}", 0, 1e-6, shape=(m, n))
            back = M.as_scipy_coo_matrix().tocsr()
            ctx.check(back.shape == (m, n) and abs(back - S.tocsr()).sum() == 0, f"large SciPy form{label}", shape=(m, n))
            ctx.count("products", 2)
        ctx.count("matrices_large")
        ctx.nontrivial(("large", m, n, k))


def run_case(ctx: Ctx):
    rng = ctx.rng
    if ctx.case % 10 == 9:
        return run_large(ctx)
    for _ in range(3):
        m, n = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        if rng.random() < 0.3:
            n = m
        kind = ctx.pick(["sorted", "unsorted", "repeated", "repeated"])
        nnz = 0 if rng.random() < 0.08 else int(rng.integers(1, 3 * max(m, n) + 1))
        rows, cols = sp.pattern(rng, m, n, nnz, kind)
        vkind = ctx.pick(["real", "int", "zeros"])
        vals = rand_values(ctx, len(rows), vkind)
        A = sp.make(vals, rows, cols, (m, n), jax_arrays=bool(rng.random() < 0.5), index_dtype=ctx.pick([np.int32, np.int64]))
        D = sp.dense(vals, rows, cols, (m, n))
        absD = sp.dense(np.abs(vals), rows, cols, (m, n)).astype(float)
        t = ctx.tol(1e-12, 2e-6)
        info = dict(values=vals, rows=rows, cols=cols, shape=(m, n))
        ctx.note(**info)

        ctx.close(A.as_dense(), D, "dense form", 0, t * (absD.max() if absD.size else 0) + 1e-30, **info)
        AT = A.T
        ctx.check(tuple(AT.shape) == (n, m), "shape of the transpose", shape=AT.shape)
        ctx.close(AT.as_dense(), D.T, "dense form of the transpose", 0, t * absD.max() + 1e-30, **info)
        ATT = AT.T
        ctx.check(tuple(ATT.shape) == (m, n) and np.array_equal(ATT.values, A.values) and np.array_equal(ATT.coords.rows, A.coords.rows)
                  and np.array_equal(ATT.coords.cols, A.coords.cols), "transposing twice changes the matrix", **info)
        S = A.as_scipy_coo_matrix()
        ctx.check(scipy.sparse.issparse(S) and S.shape == (m, n), "SciPy form")
        ctx.close(S.toarray(), D, "SciPy form", 0, t * absD.max() + 1e-30, **info)
        source = scipy.sparse.coo_matrix((vals, (rows, cols)), shape=(m, n))
        if rng.random() < 0.3:
            source = scipy.sparse.csr_matrix(D).tocoo()
        B = SparseCooMatrix.from_scipy_coo_matrix(source)
        ctx.check(tuple(B.shape) == (m, n), "shape from SciPy")
        ctx.close(B.as_dense(), D, "dense form of a matrix from SciPy", 0, t * absD.max() + 1e-30, **info)
        ctx.close(SparseCooMatrix.from_scipy_coo_matrix(S).as_scipy_coo_matrix().toarray(), D, "SciPy round trip", 0, t * absD.max() + 1e-30)

        for k in range(3):
            for M, d, ad in ((A, D, absD), (A.T, D.T, absD.T), (B, D, absD)):
                size = d.shape[1]
                x = rng.integers(-5, 6, size=size) if rng.random() < 0.3 else rng.normal(size=size).astype(np.float64 if ctx.x64 else np.float32)
                xin = jnp.asarray(x) if rng.random() < 0.5 else x
                if rng.random() < 0.2:
                    y = jax.jit(lambda M, x: M @ x)(M, xin)
                else:
                    y = M @ xin
                ctx.check(np.shape(y) == (d.shape[0],), "shape of the product", got=np.shape(y))
                ctx.close(y, d @ x, "product with a vector", 0, t * (1e-30 + (ad @ np.abs(x)).max() * 4), x=x, **info)
                ctx.count("products")
        for bad in {1, n - 1, n + 1, 2 * n, m} - {n, 0}:
            ctx.must_raise(lambda: np.asarray(A @ np.ones(bad)), f"vector of length {bad} for {n} columns")
        ctx.must_raise(lambda: np.asarray(A @ np.ones((n, 1))), "two-dimensional right-hand side")
        # Batches of matrices with one pattern.
        if nnz and rng.random() < 0.3:
            batch = np.stack([vals, 2 * vals, -vals])
            X = rng.normal(size=(3, n)).astype(np.float64 if ctx.x64 else np.float32)
            Y = jax.vmap(lambda v, x: sp.make(v, rows, cols, (m, n), True) @ x)(jnp.asarray(batch), jnp.asarray(X))
            want = np.stack([s * (D @ x) for s, x in zip((1, 2, -1), X)])
            ctx.close(Y, want, "batched product", 0, 8 * t * (1e-30 + absD.sum() * np.abs(X).max()), **info)
        ctx.count("matrices")
        if kind != "sorted" or m != n:
            ctx.nontrivial((m, n, kind, vkind, len(rows), rows.tolist(), cols.tolist()))
        ctx.count(f"matrices_{kind}")
        ctx.count(f"matrices_{vkind}")
        if nnz == 0:
            ctx.count("matrices_empty")
    ctx.sample(info)
