"""Generators of rasters with an independent numpy model of their content."""
import dask
import dask.array as da
import numpy as np

import raster_tools as rts

INT_DTYPES = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
FLOAT_DTYPES = ["float32", "float64"]
ALL_DTYPES = INT_DTYPES + ["float16"] + FLOAT_DTYPES + ["bool"]

CRSS = ["EPSG:3857", "EPSG:5070", "EPSG:32611", None]


def same_value(a, b):
    if a is None or b is None:
        return a is None and b is None
    try:
        if np.isnan(a) or np.isnan(b):
            return bool(np.isnan(a) and np.isnan(b))
    except TypeError:
        pass
    return bool(a == b)


def arrays_same(a, b, rtol=0.0, atol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if rtol == 0 and atol == 0:
        if a.dtype.kind == "f" or b.dtype.kind == "f":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    return bool(np.allclose(a.astype("f8"), b.astype("f8"), rtol=rtol, atol=atol, equal_nan=True))


class Obs:
    """Everything observable of a Raster after computing it once."""

    def __init__(self, rs, scheduler=None, **kw):
        ds = rs._ds if hasattr(rs, "_ds") else rs
        data, mask = rs.data, rs.mask
        self.lazy = dask.is_dask_collection(data) and dask.is_dask_collection(mask)
        self.chunks = getattr(data, "chunks", None)
        self.mask_chunks = getattr(mask, "chunks", None)
        self.meta_dtype = np.dtype(rs.dtype)
        cfg = {"scheduler": scheduler} if scheduler else {}
        self.data, self.mask = dask.compute(data, mask, **cfg, **kw)
        self.data = np.asarray(self.data)
        self.mask = np.asarray(self.mask)
        self.null = rs.null_value
        self.crs = rs.crs
        self.band = np.asarray(rs.band)
        self.x = np.asarray(rs.x)
        self.y = np.asarray(rs.y)
        self.affine = rs.affine
        self.dims = tuple(rs.xdata.dims)
        self.mask_dims = tuple(rs.xmask.dims)
        self.shape = rs.shape


class M:
    """Model raster: plain arrays."""

    unburned = False

    def __init__(self, data, mask, nv, x, y, crs):
        self.data, self.mask, self.nv, self.x, self.y, self.crs = data, mask, nv, x, y, crs

    @property
    def valid(self):
        return ~self.mask

    @property
    def dtype(self):
        return self.data.dtype

    @property
    def shape(self):
        return self.data.shape

    def copy(self):
        new = M(self.data.copy(), self.mask.copy(), self.nv, self.x.copy(), self.y.copy(), self.crs)
        new.unburned = self.unburned
        return new

    def desc(self):
        return (f"{self.data.dtype}{list(self.data.shape)} nv={self.nv!r} nulls={int(self.mask.sum())} "
                f"res=({self.x[1]-self.x[0] if self.x.size>1 else None},{self.y[1]-self.y[0] if self.y.size>1 else None})")


def rand_chunks(ctx, n, style=None):
    """A random partition of n."""
    style = style or ctx.choice(["one", "even", "rand", "ones", "small"], p=[0.2, 0.3, 0.3, 0.1, 0.1])
    if n <= 1 or style == "one":
        return (n,)
    if style == "ones" and n <= 24:
        return (1,) * n
    if style == "small" or style == "ones":
        c = ctx.int(2, 3)
    elif style == "even":
        c = ctx.int(1, n)
        if n / c > 12:
            c = max(c, n // 6)
    else:
        k = ctx.int(1, min(5, n - 1))
        cuts = sorted(set(ctx.rng.choice(np.arange(1, n), size=k, replace=False).tolist()))
        edges = [0] + cuts + [n]
        return tuple(int(b - a) for a, b in zip(edges[:-1], edges[1:]))
    out = [c] * (n // c)
    if n % c:
        out.append(n % c)
    return tuple(out)


def rand_data(ctx, dtype, shape, kind=None):
    rng = ctx.rng
    dtype = np.dtype(dtype)
    if dtype.kind == "b":
        return rng.random(shape) < rng.uniform(0.2, 0.8)
    kind = kind or ctx.choice(["small", "cat", "wide", "ramp"], p=[0.4, 0.25, 0.2, 0.15])
    if kind == "cat":
        k = ctx.int(1, 4)
        lo = 0 if dtype.kind == "u" else -1
        return rng.integers(lo, lo + k + 1, shape).astype(dtype)
    if dtype.kind in "ui":
        ii = np.iinfo(dtype)
        if kind == "wide":
            # full range, but float64-exact, away from the default null values
            lo, hi = max(ii.min + 1, -(2**52)), min(ii.max - 1, 2**52)
            return rng.integers(lo, hi, shape).astype(dtype)
        if kind == "ramp":
            return (np.arange(np.prod(shape)).reshape(shape) % 120).astype(dtype)
        return rng.integers(0 if dtype.kind == "u" else -50, 101, shape).astype(dtype)
    if kind == "wide" and dtype.itemsize > 2:
        return (rng.standard_normal(shape) * 10.0 ** rng.integers(-3, 6, shape)).astype(dtype)
    if kind == "ramp":
        return (np.arange(np.prod(shape)).reshape(shape) * 0.25 % 200).astype(dtype)
    return np.round(rng.uniform(-40, 60, shape), 2).astype(dtype)


def rand_mask(ctx, shape, p_none=0.0, style=None):
    rng = ctx.rng
    style = style or ctx.choice(["rand", "dense", "sparse", "block", "band", "rowcol", "all", "none"],
                                p=[0.34, 0.12, 0.15, 0.17, 0.05, 0.07, 0.03, 0.07])
    m = np.zeros(shape, bool)
    if style == "rand":
        m = rng.random(shape) < 0.25
    elif style == "dense":
        m = rng.random(shape) < 0.8
    elif style == "sparse":
        m = rng.random(shape) < 0.05
    elif style == "block":
        for b in range(shape[0]):
            y0, x0 = ctx.int(0, shape[1] - 1), ctx.int(0, shape[2] - 1)
            m[b, y0:y0 + ctx.int(1, shape[1]), x0:x0 + ctx.int(1, shape[2])] = True
    elif style == "band":
        m[ctx.int(0, shape[0] - 1)] = True
    elif style == "rowcol":
        m[:, ctx.int(0, shape[1] - 1), :] = True
        m[:, :, ctx.int(0, shape[2] - 1)] = True
    elif style == "all":
        m[:] = True
    return m


NULLS = {"b": [True, False]}


def rand_null(ctx, dtype):
    dtype = np.dtype(dtype)
    if dtype.kind == "f":
        c = [np.nan, -9999.0, -999999.0, 0.0, 1.0, 255.0]
        if dtype.itemsize == 2:
            c = [np.nan, -9999.0 if False else -99.0, -65504.0, 0.0]
        return ctx.choice(c)
    if dtype.kind == "b":
        return True  # rioxarray cannot store False as a null value (see DESIGN.md)
    ii = np.iinfo(dtype)
    c = [0, 1, int(ii.max) if ii.max < 2**53 else 0, 7]
    if dtype.kind == "i":
        c += [int(ii.min), -1]
        if ii.min <= -9999:
            c += [-9999]
    if dtype == np.dtype("uint64"):
        c = [0, 1, 7, 18446744073709549568]
    return ctx.choice(c)


def rand_grid(ctx, ny, nx, square=None, res=None):
    """Cell centre coordinates, x increasing and y decreasing."""
    if res is None:
        rx = ctx.choice([1.0, 2.0, 10.0, 30.0, 0.5, 7.25])
        ry = rx if (square or (square is None and ctx.chance(0.6))) else ctx.choice([1.0, 2.0, 3.0, 15.0, 0.25])
    else:
        rx, ry = res
    x0 = ctx.choice([0.0, -100.0, 500000.0, 12.5]) + rx * ctx.int(-5, 5)
    y0 = ctx.choice([0.0, 100.0, 4000000.0, -37.5]) + ry * ctx.int(-5, 5)
    x = x0 + rx / 2 + rx * np.arange(nx)
    y = y0 - ry / 2 - ry * np.arange(ny)
    return x, y


def model(ctx, dtype=None, shape=None, nulls=None, dtypes=None, kind=None, min_side=1, max_side=12,
          max_bands=3, crs="rand", square=None, grid=None, mask_style=None, nv=None, p_masked=0.65,
          unburned=None):
    """A random model raster. nulls: True masked, False unmasked, None random."""
    if shape is None:
        nb = ctx.int(1, max_bands)
        shape = (nb, ctx.int(min_side, max_side), ctx.int(min_side, max_side))
    dtype = np.dtype(dtype or ctx.choice(dtypes or (INT_DTYPES + FLOAT_DTYPES)))
    data = rand_data(ctx, dtype, shape, kind)
    masked = ctx.chance(p_masked) if nulls is None else nulls
    if masked:
        if nv is None:
            nv = rand_null(ctx, dtype)
        mask = rand_mask(ctx, shape, style=mask_style)
        # the model is well-formed: exactly the masked cells hold the null value
        isnv = np.isnan(data) if same_value(nv, np.nan) else data == dtype.type(nv)
        if dtype.kind == "b":
            mask = isnv
        else:
            repl = dtype.type(3 if not same_value(nv, 3) else 5)
            data = np.where(isnv, repl, data)
            data = np.where(mask, dtype.type(nv), data).astype(dtype)
        if unburned is None:
            unburned = False
        if unburned and mask.any() and dtype.kind != "b":
            # legal input form: the mask, not the stored value, says what is null
            junk = rand_data(ctx, dtype, shape, "cat")
            data = np.where(mask, junk, data).astype(dtype)
    else:
        nv = None
        mask = np.zeros(shape, bool)
    if grid is None:
        x, y = rand_grid(ctx, shape[1], shape[2], square=square)
    else:
        x, y = grid
    c = ctx.choice(CRSS, p=[0.5, 0.2, 0.2, 0.1]) if crs == "rand" else crs
    out = M(data, mask, nv, x, y, c)
    out.unburned = bool(unburned and masked)
    return out


def build(ctx, m, chunks=None, how=None, wrap=None):
    """A real Raster with the model's content. chunks: (ychunks, xchunks)."""
    nb, ny, nx = m.shape
    if chunks is None:
        chunks = (rand_chunks(ctx, ny), rand_chunks(ctx, nx))
    full = ((1,) * nb, *chunks)
    data = da.from_array(m.data.copy() if wrap is None else wrap(m.data), chunks=full)
    how = how or ctx.choice(["nv", "mask"])
    if m.nv is None:
        r = rts.data_to_raster(data, x=m.x.copy(), y=m.y.copy(), crs=m.crs)
    elif how == "mask" or getattr(m, "unburned", False) or m.dtype.kind == "b":
        mask = da.from_array(m.mask.copy() if wrap is None else wrap(m.mask), chunks=full)
        r = rts.data_to_raster(data, mask=mask, x=m.x.copy(), y=m.y.copy(), crs=m.crs, nv=m.nv)
    else:
        r = rts.data_to_raster(data, x=m.x.copy(), y=m.y.copy(), crs=m.crs, nv=m.nv)
    ctx.note(m.data, m.mask, str(m.nv), chunks)
    ctx.describe(raster=m.desc(), chunks=chunks)
    return r


def raster(ctx, **kw):
    bkw = {k: kw.pop(k) for k in ("chunks", "how") if k in kw}
    m = model(ctx, **kw)
    return m, build(ctx, m, **bkw)


# ---------------------------------------------------------------- monitors

def crs_same(a, b):
    if a is None or b is None:
        return a is None and b is None
    import rasterio as rio

    return rio.crs.CRS.from_user_input(a) == rio.crs.CRS.from_user_input(b)


def check_grid(ctx, o, m, key="grid"):
    ctx.check(o.x.shape == m.x.shape and np.allclose(o.x, m.x, rtol=0, atol=1e-6 * max(1, np.abs(m.x).max() * 1e-6)),
              key + ":x", "x coordinates changed", got=o.x, want=m.x)
    ctx.check(o.y.shape == m.y.shape and np.allclose(o.y, m.y, rtol=0, atol=1e-6 * max(1, np.abs(m.y).max() * 1e-6)),
              key + ":y", "y coordinates changed", got=o.y, want=m.y)
    ctx.check(crs_same(o.crs, m.crs), key + ":crs", "CRS changed", got=o.crs, want=m.crs)


def check_wellformed(ctx, o, key="form", burned=True):
    ctx.count("wellformed_checks")
    ctx.check(o.dims == ("band", "y", "x") and o.mask_dims == ("band", "y", "x"), key + ":dims", got=(o.dims, o.mask_dims))
    ctx.check(o.lazy, key + ":not_dask", "data or mask is not a dask array")
    ctx.check(o.data.ndim == 3 and o.data.shape == o.shape, key + ":shape", got=(o.data.shape, o.shape))
    ctx.check(o.mask.shape == o.data.shape, key + ":mask_shape", got=(o.mask.shape, o.data.shape))
    ctx.check(o.mask.dtype == bool, key + ":mask_dtype", got=o.mask.dtype)
    ctx.check(o.meta_dtype == o.data.dtype, key + ":dtype_lie", "declared and computed dtype differ", declared=o.meta_dtype, computed=o.data.dtype)
    ctx.check(np.array_equal(o.band, np.arange(1, o.data.shape[0] + 1)), key + ":band_labels", got=o.band)
    ctx.check(o.chunks is not None and all(c == 1 for c in o.chunks[0]), key + ":band_chunks", got=o.chunks)
    ctx.check(o.chunks == o.mask_chunks, key + ":mask_chunks", got=(o.chunks, o.mask_chunks))
    ctx.check(bool(np.all(np.diff(o.x) > 0)), key + ":x_order", got=o.x)
    ctx.check(bool(np.all(np.diff(o.y) < 0)), key + ":y_order", got=o.y)
    ctx.check((o.data.shape[1], o.data.shape[2]) == (o.y.size, o.x.size), key + ":coords_shape")
    if o.null is None:
        ctx.check(not o.mask.any(), key + ":mask_without_null", "cells are null but there is no null value", mask=o.mask)
    elif burned and o.mask.any():
        v = o.data[o.mask]
        if o.data.dtype.kind == "b":
            ok = True  # documented: null cells of boolean rasters are set to True, whatever the null value
        else:
            ok = np.isnan(v).all() if same_value(o.null, np.nan) else (v == np.asarray(o.null).astype(o.data.dtype)).all()
        ctx.check(bool(ok), key + ":null_not_burned", "masked cells do not hold the null value", null=o.null, got=v)
    if o.null is not None and o.data.dtype.kind in "ui":
        ii = np.iinfo(o.data.dtype)
        ctx.check(not np.isnan(o.null) and ii.min <= o.null <= ii.max and float(o.null).is_integer(), key + ":null_unrepresentable",
                  null=o.null, dtype=o.data.dtype)


def check_cells(ctx, o, want, want_mask, key="cells", rtol=0.0, atol=0.0, dtype=None):
    """Valid cells and nulls equal the expectation."""
    want = np.asarray(want)
    want_mask = np.asarray(want_mask)
    ctx.check(o.data.shape == want.shape, key + ":shape", got=o.data.shape, want=want.shape)
    ctx.check(np.array_equal(o.mask, want_mask), key + ":mask", "wrong cells are null",
              got=o.mask.astype(int), want=want_mask.astype(int), data=o.data)
    v = ~want_mask
    ctx.count("cells_compared", v.sum())
    ctx.check(arrays_same(o.data[v], want[v], rtol, atol), key + ":values", "wrong cell values",
              got=np.where(v, o.data, 0), want=np.where(v, want, 0), where=np.argwhere(v & ~np.isclose(
                  np.where(v, o.data, 0).astype("f8"), np.where(v, want, 0).astype("f8"), rtol=max(rtol, 1e-15), atol=atol, equal_nan=True))[:5])
    if dtype is not None:
        ctx.check(o.data.dtype == np.dtype(dtype), key + ":dtype", got=o.data.dtype, want=np.dtype(dtype))
