"""Image stacks for the median checks and an independent per-pixel reference median."""
import numpy as np


def gen_stack(rng, small=False):
    rows = rng.weighted([(rng.randrange(1, 6), 3), (rng.randrange(6, 24), 3)]) if not small else rng.randrange(1, 8)
    cols = rng.weighted([(1, 1), (rng.randrange(2, 9), 4), (rng.randrange(9, 40), 2 if not small else 0)])
    n = rng.weighted([(1, 1), (2, 1), (rng.randrange(3, 8), 4), (rng.randrange(8, 24), 1 if not small else 0)])
    dtype = rng.weighted([("float32", 6), ("float64", 2), ("float16", 1), (">f4", 1), ("int32", 1)])
    item = np.dtype(dtype).itemsize
    row = cols * item * n  # bytes for one row of every frame
    buf = rng.weighted([(None, 2), (0, 1), (row, 1), (row * rng.randrange(1, rows + 2), 4), (rng.randrange(1, max(2, row)), 1), (row * rows * 3, 1),
                        (rng.randrange(row, row * (rows + 1) + 1), 3)])
    return {"dims": [n, rows, cols], "dtype": dtype, "buffer": buf, "seed": rng.randrange(1 << 30),
            "nan": rng.weighted([(0, 2), (1, 3), (4, 2), (9, 1)]), "levels": rng.pick([0, 3, 1000])}


def image(p, k):
    """The k-th image, a function of the plan and k alone."""
    n, rows, cols = p["dims"]
    g = np.random.Generator(np.random.PCG64([p["seed"], k]))
    if p["levels"]:
        a = g.integers(-p["levels"], p["levels"] + 1, size=(rows, cols)).astype("float64")
    else:
        a = g.normal(size=(rows, cols)) * 10.0 ** g.integers(-2, 4)
    a = a.astype(p["dtype"])
    if p["nan"] and a.dtype.kind == "f":
        a[g.random((rows, cols)) < p["nan"] / 10] = np.nan
        if p["nan"] > 3:
            a[:, g.integers(0, cols)] = np.nan
    return a


def layout(a, how):
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.empty((a.shape[0] * 2, a.shape[1] * 3), dtype=a.dtype)
        b[::2, ::3] = a
        return b[::2, ::3]
    if how == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


def reference(images, shape, dtype):
    """Per-pixel median ignoring NaN by sorting; NaN where there is no value."""
    dtype = np.dtype(dtype)
    out = np.full(shape, np.nan) if dtype.kind == "f" else np.zeros(shape)
    for r in range(shape[0]):
        for c in range(shape[1]):
            v = sorted(float(i[r, c]) for i in images if i[r, c] == i[r, c])
            if v:
                m = len(v) // 2
                out[r, c] = v[m] if len(v) % 2 else (v[m - 1] + v[m]) / 2
    return out


def agree(got, want, dtype):
    """Equal up to one rounding of the two middle values in the stack's own type."""
    dtype = np.dtype(dtype)
    got = np.asarray(got)
    if got.shape != want.shape:
        return f"shape {got.shape}, not {want.shape}"
    if dtype.kind != "f":
        bad = ~((np.trunc(want) == got) | (np.rint(want) == got) | (np.floor(want) == got))
    else:
        g = got.astype("float64")
        tol = {2: 2e-3, 4: 2e-6, 8: 1e-13}[dtype.itemsize]
        bad = ~((np.isnan(g) & np.isnan(want)) | (np.abs(g - want) <= tol * np.maximum(np.abs(want), 1e-3)))
    if bad.any():
        r, c = np.argwhere(bad)[0]
        return f"{int(bad.sum())} of {bad.size} pixels wrong, first [{r},{c}]: {got[r, c]!r}, not {want[r, c]!r}"
    return None


def shrink_stack(p):
    n, rows, cols = p["dims"]
    for d in ([n - 1, rows, cols], [n, rows // 2, cols], [n, rows - 1, cols], [n, rows, cols // 2], [n, rows, 1]):
        if min(d) >= 1 and d != p["dims"]:
            yield dict(p, dims=d)
    if p["nan"]:
        yield dict(p, nan=0)
    if p["dtype"] != "float32":
        yield dict(p, dtype="float32")
    if p["buffer"] is not None:
        yield dict(p, buffer=None)
