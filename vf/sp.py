"""Random sparse matrices with the irregularities the library has to cope with."""
import numpy as np
from jax import numpy as jnp
from jaxfg.sparse import SparseCooCoordinates, SparseCooMatrix


def pattern(rng, m, n, nnz, kind):
    """Coordinates: unsorted, possibly repeated, some rows or columns left empty."""
    if m == 0 or n == 0 or nnz == 0:
        return np.zeros(0, np.int64), np.zeros(0, np.int64)
    if kind == "sorted":
        cells = rng.choice(m * n, size=min(nnz, m * n), replace=False)
        cells.sort()
    elif kind == "unsorted":
        cells = rng.choice(m * n, size=min(nnz, m * n), replace=False)
    else:  # repeated
        base = rng.choice(m * n, size=min(max(1, nnz // 2), m * n), replace=False)
        cells = base[rng.integers(len(base), size=nnz)]
    return (cells // n).astype(np.int64), (cells % n).astype(np.int64)


def make(values, rows, cols, shape, jax_arrays=False, index_dtype=np.int32):
    conv = jnp.asarray if jax_arrays else np.asarray
    return SparseCooMatrix(
        values=conv(values),
        coords=SparseCooCoordinates(rows=conv(np.asarray(rows, index_dtype)), cols=conv(np.asarray(cols, index_dtype))),
        shape=tuple(int(d) for d in shape),
    )


def dense(values, rows, cols, shape):
    out = np.zeros(shape, np.asarray(values).dtype if np.asarray(values).dtype.kind == "i" else float)
    np.add.at(out, (rows, cols), np.asarray(values))
    return out
