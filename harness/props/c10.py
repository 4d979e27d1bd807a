"""C10: georeferencing stays consistent."""
import os

import dask.array as da
import numpy as np
import rasterio as rio
import xarray as xr
from affine import Affine

import raster_tools as rts
from gen import CRSS, M, Obs, build, check_wellformed, crs_same, model, rand_chunks, rand_grid, same_value, arrays_same
from core import sut, Skip

PROP = "C10"
RULE = ("Rasters from arrays, DataArrays, Datasets (any axis order, direction and common dim names) and files (north-up and "
        "south-up), square and non-square cells: every cell value must be presented at its true coordinate; affine, bounds, "
        "resolution, geobox and xy()/index() are compared with the coordinates by independent formulas. Non-trivial: a "
        "non-default orientation, a non-square cell or several chunks.")


def georef(ctx, r, m, res=None, key="geo"):
    """affine/bounds/resolution/geobox/xy/index against the coordinates."""
    ny, nx = m.shape[1:]
    if res is None:
        res = (m.x[1] - m.x[0], m.y[0] - m.y[1])
    rx, ry = float(res[0]), float(res[1])
    left, top = m.x[0] - rx / 2, m.y[0] + ry / 2
    right, bottom = m.x[-1] + rx / 2, m.y[-1] - ry / 2
    tol = 1e-9 * max(1.0, np.abs([left, right, top, bottom]).max())
    close = lambda a, b: np.allclose(np.asarray(a, "f8"), np.asarray(b, "f8"), rtol=0, atol=tol)  # noqa: E731
    ctx.check(close(r.x, m.x), key + ":x", got=r.x, want=m.x)
    ctx.check(close(r.y, m.y), key + ":y", got=r.y, want=m.y)
    a = r.affine
    ctx.check(close([a.a, a.b, a.c, a.d, a.e, a.f], [rx, 0, left, 0, -ry, top]), key + ":affine", got=a, want=(rx, 0, left, 0, -ry, top))
    ctx.check(close(r.resolution, (rx, -ry)), key + ":resolution", got=r.resolution, want=(rx, ry))
    ctx.check(close(r.bounds, (left, bottom, right, top)), key + ":bounds", got=r.bounds, want=(left, bottom, right, top))
    gb = r.geobox
    ctx.check(tuple(gb.shape) == (ny, nx), key + ":geobox_shape", got=gb.shape)
    g = gb.affine
    ctx.check(close([g.a, g.b, g.c, g.d, g.e, g.f], [rx, 0, left, 0, -ry, top]), key + ":geobox_affine", got=g)
    if m.crs is None:
        ctx.check(gb.crs is None and r.crs is None, key + ":crs_none", got=(gb.crs, r.crs))
    else:
        ctx.check(crs_same(r.crs, m.crs) and gb.crs == m.crs, key + ":crs", got=(r.crs, gb.crs))
    # xy
    rows, cols = np.meshgrid(np.arange(ny), np.arange(nx), indexing="ij")
    offs = {"center": (0.5, 0.5), "ul": (0, 0), "ur": (0, 1), "ll": (1, 0), "lr": (1, 1)}
    for off, (ro, co) in offs.items():
        X, Y = r.xy(rows.ravel(), cols.ravel(), offset=off)
        ctx.check(close(X, left + (cols.ravel() + co) * rx) and close(Y, top - (rows.ravel() + ro) * ry), key + ":xy:" + off,
                  got=(np.asarray(X)[:4], np.asarray(Y)[:4]))
    i, j = ctx.int(0, ny - 1), ctx.int(0, nx - 1)
    X, Y = r.xy(i, j)
    ctx.check(close([X, Y], [m.x[j], m.y[i]]), key + ":xy_scalar", got=(X, Y), want=(m.x[j], m.y[i]))
    # index is the inverse over the whole grid and floors inside the cell
    gx, gy = np.meshgrid(m.x, m.y)
    R, C = r.index(gx.ravel(), gy.ravel())
    ctx.check(np.array_equal(R, rows.ravel()) and np.array_equal(C, cols.ravel()), key + ":index", got=(R, C))
    fx, fy = ctx.rng.uniform(0.01, 0.99, (2, 40))
    rr, cc = ctx.rng.integers(-3, ny + 3, 40), ctx.rng.integers(-3, nx + 3, 40)
    R, C = r.index(left + (cc + fx) * rx, top - (rr + fy) * ry)
    ctx.check(np.array_equal(R, rr) and np.array_equal(C, cc), key + ":index_points", got=(R, C), want=(rr, cc))
    R, C = r.index(float(gx[i, j]), float(gy[i, j]))
    ctx.check((int(R), int(C)) == (i, j), key + ":index_scalar", got=(R, C), want=(i, j))
    seq = ctx.choice([list, tuple])
    with sut(ctx):
        X, Y = r.xy(seq([i, 0]), seq([j, nx - 1]))
        R, C = r.index(seq([float(gx[i, j])]), seq([float(gy[i, j])]))
    ctx.check(close(X, [m.x[j], m.x[-1]]) and close(Y, [m.y[i], m.y[0]]), key + ":xy_sequence", got=(X, Y))
    ctx.check((int(R[0]), int(C[0])) == (i, j), key + ":index_sequence", got=(R, C), want=(i, j))
    ctx.count("georef_checks")


def at_coords(ctx, r, m, key, mask=True):
    o = Obs(r)
    check_wellformed(ctx, o, key=key + ":form", burned=False)
    ctx.check(o.data.shape == m.shape, key + ":shape", got=o.data.shape, want=m.shape)
    # by coordinate, not by position
    xi = np.argmin(np.abs(o.x[None, :] - m.x[:, None]), axis=1)
    yi = np.argmin(np.abs(o.y[None, :] - m.y[:, None]), axis=1)
    d = o.data[:, yi][:, :, xi]
    k = o.mask[:, yi][:, :, xi]
    ctx.check(np.array_equal(k, m.mask), key + ":mask", "nulls are not at their coordinates", got=k.astype(int), want=m.mask.astype(int))
    v = m.valid
    ctx.check(arrays_same(d[v], m.data[v]), key + ":values", "values are not at their coordinates", got=d, want=m.data)
    ctx.count("cells_at_coordinates", v.sum())


NAMES = [("band", "y", "x"), ("time", "lat", "lon"), ("band", "lat", "lon"), ("band", "latitude", "longitude")]


def fam_xarray(ctx):
    m = model(ctx, dtypes=["uint8", "int32", "float32", "float64", "int16"], min_side=2)
    nb, ny, nx = m.shape
    names = NAMES[ctx.index % len(NAMES)]
    if names[1] == "latitude":
        names = ctx.choice(NAMES[:3])
    flipx, flipy = ctx.chance(0.4), ctx.chance(0.4)
    two_d = ctx.chance(0.3)
    if two_d:
        m = M(m.data[:1], m.mask[:1], m.nv, m.x, m.y, m.crs)
        nb = 1
    d = m.data
    x, y = m.x, m.y
    if flipx:
        d, x = d[:, :, ::-1], x[::-1]
    if flipy:
        d, y = d[:, ::-1], y[::-1]
    ctx.interesting(flipx or flipy or abs(m.x[1] - m.x[0]) != abs(m.y[1] - m.y[0]))
    ctx.note(names, flipx, flipy, two_d, d, str(m.nv))
    lazy = ctx.chance(0.5)
    arr = da.from_array(d.copy(), chunks=(ctx.choice([1, nb]), ctx.int(1, ny), ctx.int(1, nx))) if lazy else d.copy()
    if two_d:
        xd = xr.DataArray(arr[0], dims=names[1:], coords={names[1]: y, names[2]: x})
        order = list(names[1:])
    else:
        xd = xr.DataArray(arr, dims=names, coords={names[0]: np.arange(nb) + ctx.int(0, 3), names[1]: y, names[2]: x})
        order = list(names)
    if ctx.chance(0.35):
        order = list(ctx.rng.permutation(order))
        xd = xd.transpose(*order)
    xd = xd.rio.set_spatial_dims(x_dim=names[2], y_dim=names[1])
    if m.crs is not None:
        xd = xd.rio.write_crs(m.crs)
    if m.nv is not None:
        xd = xd.rio.write_nodata(m.nv) if ctx.chance(0.5) else xd.assign_attrs(_FillValue=m.nv)
    ctx.describe(model=m.desc(), names=names, order=order, flipx=flipx, flipy=flipy, lazy=lazy)
    before = np.asarray(xd.data).copy()
    r = rts.Raster(xd)
    at_coords(ctx, r, m, "xarray")
    georef(ctx, r, m)
    ctx.check(arrays_same(np.asarray(xd.data), before) and xd.dims == tuple(order), "xarray:input_changed")
    ctx.count("orientations")
    if flipx or flipy:
        ctx.count("flipped")


def fam_dataset(ctx):
    m = model(ctx, dtypes=["uint8", "int32", "float32", "float64"], min_side=2, nulls=True)
    r = build(ctx, m)
    ds = r.to_dataset()
    flipx, flipy = ctx.chance(0.5), ctx.chance(0.5)
    d2 = ds.isel(x=slice(None, None, -1)) if flipx else ds
    d2 = d2.isel(y=slice(None, None, -1)) if flipy else d2
    if not (flipx or flipy) or ctx.chance(0.5):
        d2 = d2.compute()
    else:
        pass
    ctx.note(flipx, flipy)
    ctx.interesting()
    ctx.describe(flipx=flipx, flipy=flipy)
    import dask

    if dask.is_dask_collection(d2) and (flipx or flipy):
        d2 = d2.compute()
    r2 = rts.Raster(d2)
    at_coords(ctx, r2, m, "dataset")
    georef(ctx, r2, m)
    ctx.count("datasets")


def fam_file(ctx):
    m = model(ctx, dtypes=["uint8", "int16", "uint16", "int32", "uint32", "float32", "float64"], min_side=2)
    nb, ny, nx = m.shape
    rx, ry = m.x[1] - m.x[0], m.y[0] - m.y[1]
    southup = ctx.chance(0.4)
    if southup:
        aff = Affine(rx, 0, m.x[0] - rx / 2, 0, ry, m.y[-1] - ry / 2)
        d = m.data[:, ::-1]
    else:
        aff = Affine(rx, 0, m.x[0] - rx / 2, 0, -ry, m.y[0] + ry / 2)
        d = m.data
    path = os.path.join(ctx.tmp, "in.tif")
    kw = {}
    if m.nv is not None:
        kw["nodata"] = m.nv
    with rio.open(path, "w", driver="GTiff", height=ny, width=nx, count=nb, dtype=str(m.dtype), crs=m.crs, transform=aff, **kw) as f:
        f.write(d)
    ctx.note(m.data, m.mask, southup, str(m.nv))
    ctx.describe(model=m.desc(), southup=southup)
    ctx.interesting(southup or rx != ry)
    r = rts.Raster(path)
    at_coords(ctx, r, m, "file")
    georef(ctx, r, m)
    ctx.check(r.dtype == m.dtype, "file:dtype", got=r.dtype)
    if m.nv is not None and not same_value(m.nv, np.nan):
        ctx.check(same_value(r.null_value, m.nv), "file:null_value", got=r.null_value, want=m.nv)
    ctx.count("files")
    if southup:
        ctx.count("flipped")


def fam_affine(ctx):
    """Arrays with an affine or with no georeferencing at all, incl. single rows, columns and cells."""
    nb, ny, nx = ctx.int(1, 3), ctx.int(1, 8), ctx.int(1, 8)
    data = ctx.rng.integers(0, 100, (nb, ny, nx)).astype(ctx.choice(["uint8", "int32", "float64"]))
    ch = (rand_chunks(ctx, ny), rand_chunks(ctx, nx))
    d = da.from_array(data.copy(), chunks=((1,) * nb, *ch)) if ctx.chance(0.6) else data.copy()
    mode = ctx.enum(["affine", "none", "array"])
    if mode != "affine" and (ny < 2 or nx < 2):
        mode = "affine"
    ctx.note(mode, data)
    ctx.interesting()
    mask = np.zeros(data.shape, bool)
    if mode == "affine":
        x, y = rand_grid(ctx, max(ny, 2), max(nx, 2))
        rx, ry = x[1] - x[0], y[0] - y[1]
        x, y = x[:nx], y[:ny]
        crs = ctx.choice(CRSS)
        aff = Affine(rx, 0, x[0] - rx / 2, 0, -ry, y[0] + ry / 2)
        r = rts.data_to_raster(d, affine=aff, crs=crs)
        m = M(data, mask, None, x, y, crs)
        ctx.describe(shape=data.shape, affine=tuple(aff)[:6], crs=crs)
        if ny < 2 or nx < 2:
            # a single row or column: the library only knows the coordinates
            at_coords(ctx, r, m, "affine")
            ctx.check(np.allclose(r.x, x) and np.allclose(r.y, y), "affine:coords", got=(r.x, r.y))
            ctx.count("single_rowcol")
            return
        res = (rx, ry)
    else:
        x, y = np.arange(nx) + 0.5, np.arange(ny)[::-1] + 0.5
        m = M(data, mask, None, x, y, None)
        res = (1.0, 1.0)
        ctx.describe(shape=data.shape, mode=mode)
        r = rts.data_to_raster(d) if mode == "none" else rts.Raster(d)
        if mode == "array" and data.dtype.kind == "f" and not isinstance(d, np.ndarray):
            m.nv = r.null_value
    at_coords(ctx, r, m, mode)
    georef(ctx, r, m, res)
    ctx.count("affines")


def fam_ops(ctx):
    """Georeferencing after operations that keep the grid, whatever the chunks."""
    m = model(ctx, dtypes=["uint8", "int32", "float32", "float64"], min_side=2, max_side=14)
    r = build(ctx, m)
    ops = {
        "chunk": lambda q: q.chunk((1, ctx.int(1, m.shape[1]), ctx.int(1, m.shape[2]))),
        "bands": lambda q: q.get_bands([1, 1]),
        "astype": lambda q: q.astype("float64"),
        "add": lambda q: q + 1,
        "cmp": lambda q: q > 3,
        "where": lambda q: q.where(q > 2, 1),
        "copy": lambda q: q.copy(),
        "round": lambda q: q.round(1) if q.dtype.kind != "b" else q,
        "setnull": lambda q: q.set_null_value(3),
        "reclass": lambda q: q.reclassify({1: 2}),
        "load": lambda q: q.load(),
        "eval": lambda q: q.eval(),
    }
    seq = [ctx.choice(list(ops)) for _ in range(ctx.int(1, 3))]
    ctx.note(seq)
    ctx.describe(ops=seq)
    ctx.interesting()
    out = r
    for s in seq:
        out = ops[s](out) or out
    georef(ctx, out, m, key="ops")
    ctx.check(out.shape[1:] == m.shape[1:], "ops:shape")
    if ctx.chance(0.3):
        c = ctx.choice(["EPSG:5070", "EPSG:32611"])
        o2 = out.set_crs(c)
        m2 = m.copy()
        m2.crs = c
        georef(ctx, o2, m2, key="set_crs")
        georef(ctx, out, m, key="set_crs_orig")
        a, b = Obs(o2), Obs(out)
        ctx.check(arrays_same(a.data, b.data) and np.array_equal(a.mask, b.mask) and same_value(a.null, b.null), "set_crs:cells")
    ctx.count("op_chains")


FAMILIES = {"xarray": (fam_xarray, 120, 1500), "dataset": (fam_dataset, 30, 300), "file": (fam_file, 60, 600),
            "affine": (fam_affine, 80, 800), "ops": (fam_ops, 80, 800)}
REQUIRED = ["georef_checks", "orientations", "flipped", "files", "affines", "single_rowcol", "op_chains"]
