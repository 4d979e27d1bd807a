"""C31: rasters built from data in memory hold exactly that data."""
import dask
import dask.array as da
import numpy as np
import xarray as xr
from affine import Affine

import raster_tools as rts
from core import expect_raises, sut
from gen import ALL_DTYPES, CRSS, M, Obs, arrays_same, check_cells, check_grid, check_wellformed, crs_same, model, rand_chunks, rand_data, rand_grid, same_value
from raster_tools.masking import get_default_null_value

PROP = "C31"
RULE = ("Random arrays (numpy, dask, 2-D and 3-D, every dtype, any band chunking), masks, null values (present or absent, NaN, none), burning, coordinates in either "
        "direction, affines, templates and CRSs through every function that makes a raster or standard DataArray/Dataset from data in memory; every cell, null, the null value, "
        "dtype, coordinates, CRS and chunks are compared with the arrays, and every view of the raster with every other. Non-trivial: nulls, several chunks or a flipped axis.")
REQUIRED = ["cells_compared", "constructors", "views", "flipped", "burned", "masks_given", "lazy_datasets", "encoded_nulls", "refused"]
DT = [d for d in ALL_DTYPES]


def source(ctx, nulls=None, dtypes=None):
    """Arrays and what a caller says about them."""
    m = model(ctx, dtypes=dtypes or DT, min_side=2, nulls=nulls, unburned=ctx.chance(0.5))
    if m.dtype.kind == "b" and m.nv is not None:
        m.data = m.data | m.mask
    return m


def as_array(ctx, a, m, two_d):
    a = a[0] if two_d else a
    a = a.copy()
    kind = ctx.choice(["numpy", "dask", "dask", "fortran", "strided"])
    if kind == "dask":
        c = (rand_chunks(ctx, m.shape[1]), rand_chunks(ctx, m.shape[2]))
        if not two_d:
            c = (ctx.choice([(1,) * m.shape[0], (m.shape[0],), rand_chunks(ctx, m.shape[0])]), *c)
        ctx.interesting()
        return da.from_array(a, chunks=c)
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        big = np.repeat(a, 2, axis=-1)
        return big[..., ::2]
    return a


def judge(ctx, r, m, data, key, burned=False, stored=None):
    """r holds data, with m's nulls, null value and grid."""
    o = Obs(r)
    check_wellformed(ctx, o, key=key + ":form", burned=burned)
    ctx.check(same_value(o.null, m.nv), key + ":null_value", got=o.null, want=m.nv)
    check_cells(ctx, o, data, m.mask, key=key)
    ctx.check(o.data.dtype == data.dtype, key + ":dtype", got=o.data.dtype, want=data.dtype)
    check_grid(ctx, o, m, key=key)
    if stored is not None:
        ctx.check(arrays_same(o.data, stored), key + ":stored", "the stored values changed", got=o.data, want=stored)
    ctx.count("constructors")
    return o


def views(ctx, r, o):
    """All the ways to look at a raster show the same thing."""
    k = "view"
    ctx.check(arrays_same(r.values, o.data) and arrays_same(r.to_numpy(), o.data), k + ":values")
    ctx.check(arrays_same(r.xdata.to_numpy(), o.data), k + ":xdata")
    ctx.check(np.array_equal(r.xmask.to_numpy(), o.mask), k + ":xmask")
    ds = r.to_dataset()
    ctx.check(arrays_same(ds["raster"].to_numpy(), o.data) and np.array_equal(ds["mask"].to_numpy(), o.mask), k + ":dataset")
    ctx.check(r.shape == o.data.shape and r.size == o.data.size and r.nbands == o.data.shape[0] and r.dtype == o.data.dtype, k + ":sizes")
    xc, yc = r.get_chunked_coords()
    ctx.check(xc.shape == (1, 1, o.x.size) and yc.shape == (1, o.y.size, 1), k + ":chunked_coords_shape", got=(xc.shape, yc.shape))
    ctx.check(np.array_equal(xc.compute().ravel(), o.x) and np.array_equal(yc.compute().ravel(), o.y), k + ":chunked_coords")
    ctx.check(xc.chunks[2] == o.chunks[2] and yc.chunks[1] == o.chunks[1], k + ":chunked_coords_chunks", got=(xc.chunks, yc.chunks), want=o.chunks)
    infos = r.geo_block_infos
    ctx.check(infos.shape == tuple(len(c) for c in o.chunks), k + ":infos_shape", got=infos.shape)
    rx, ry = abs(o.affine.a), abs(o.affine.e)
    got = infos.compute()
    e = [np.concatenate([[0], np.cumsum(c)]) for c in o.chunks]
    for idx in np.ndindex(got.shape):
        b, i, j = idx
        info = got[idx]
        xs, ys = o.x[e[2][j]:e[2][j + 1]], o.y[e[1][i]:e[1][i + 1]]
        ctx.check(np.allclose(np.asarray(info.x).ravel(), xs, rtol=0, atol=1e-6 * rx) and np.allclose(np.asarray(info.y).ravel(), ys, rtol=0, atol=1e-6 * ry),
                  k + ":info_coords", got=(info.x, info.y), want=(xs, ys))
        a = info.affine
        ctx.check(np.allclose([a.c, a.f], [xs[0] - rx / 2, ys[0] + ry / 2], rtol=0, atol=1e-6 * max(rx, ry)), k + ":info_affine", got=a)
        ctx.check(crs_same(info.crs, o.crs), k + ":info_crs", got=info.crs)
        ctx.count("block_infos")
    if o.data.dtype.kind != "b":
        n = rts.get_raster(r, null_to_nan=True)
        d = np.asarray(n.data.compute())
        if o.null is None:
            ctx.check(arrays_same(d, o.data), k + ":nan_unmasked")
        else:
            ctx.check(d.dtype.kind == "f" and np.isnan(d[o.mask]).all(), k + ":nan_nulls", got=d)
            ctx.check(arrays_same(d[~o.mask], o.data[~o.mask].astype(d.dtype)), k + ":nan_values", got=d, want=o.data)
    ctx.count("views")


def flips(ctx):
    return ctx.chance(0.4), ctx.chance(0.4)


def default_null(dtype):
    return get_default_null_value(np.dtype(dtype))


def f_arrays(ctx):
    """data_to_raster and its DataArray and Dataset forms."""
    two_d = ctx.chance(0.3)
    m = source(ctx)
    if two_d:
        m = M(m.data[:1], m.mask[:1], m.nv, m.x, m.y, m.crs)
    place = ctx.choice(["xy", "xy", "affine", "none"])
    data, mask = m.data, m.mask
    x, y = m.x, m.y
    kw = {}
    if place == "xy":
        fx, fy = flips(ctx)
        if fx:
            x, data, mask = x[::-1], data[:, :, ::-1], mask[:, :, ::-1]
        if fy:
            y, data, mask = y[::-1], data[:, ::-1], mask[:, ::-1]
        if fx or fy:
            ctx.count("flipped")
            ctx.interesting()
        kw.update(x=x.copy(), y=y.copy() if ctx.chance(0.8) else y.copy()[:, None])
    elif place == "affine":
        rx, ry = m.x[1] - m.x[0], m.y[0] - m.y[1]
        kw["affine"] = Affine(rx, 0, m.x[0] - rx / 2, 0, -ry, m.y[0] + ry / 2)
    else:
        m.x, m.y = np.arange(m.shape[2]) + 0.5, np.arange(m.shape[1])[::-1] + 0.5
    if m.crs is not None:
        kw["crs"] = m.crs
    arr = as_array(ctx, data, m, two_d)
    mode = ctx.choice(["none", "nv", "mask", "mask"])
    stored, expect = m.data, m.data
    w = m.copy()
    burn = False
    if mode == "none":
        w.nv, w.mask = None, np.zeros(m.shape, bool)
    elif mode == "nv":
        nv = m.nv if m.nv is not None else (m.data.ravel()[ctx.int(0, m.data.size - 1)].item() if m.dtype.kind != "b" else True)
        w.nv = nv
        w.mask = np.isnan(m.data) if same_value(nv, np.nan) else m.data == nv
        kw["nv"] = nv
    else:
        burn = ctx.chance(0.6)
        kw["mask"] = as_array(ctx, mask, m, two_d)
        kw["burn"] = burn
        if m.nv is not None and (m.dtype.kind == "b" or ctx.chance(0.7)):
            kw["nv"] = w.nv = m.nv
        else:
            w.nv = default_null(m.dtype)
        w.mask = m.mask
        ctx.count("masks_given")
        if burn:
            stored = np.where(m.mask, np.asarray(w.nv, m.dtype), m.data)
            ctx.count("burned")
    form = ctx.choice(["raster", "ds", "xr"] if mode != "mask" else ["raster", "ds"])
    ctx.note(data, mask, place, mode, form, burn, str(w.nv))
    ctx.describe(model=m.desc(), two_d=two_d, place=place, mode=mode, burn=burn, form=form, array=type(arr).__name__)
    ctx.interesting(w.mask.any())
    with sut(ctx):
        if form == "raster":
            r = rts.data_to_raster(arr, **kw)
        elif form == "ds":
            ds = rts.data_to_xr_raster_ds(arr, **kw)
            ctx.check(set(ds.data_vars) == {"raster", "mask"}, "arrays:ds_vars", got=list(ds.data_vars))
            r = rts.Raster(ds)
        else:
            xd = rts.data_to_xr_raster(arr, **kw)
            ctx.check(same_value(xd.rio.nodata, w.nv), "arrays:xr_null", got=xd.rio.nodata, want=w.nv)
            r = rts.dataarray_to_raster(xd)
    o = judge(ctx, r, w, expect, "arrays", burned=burn, stored=stored)
    views(ctx, r, o)


def f_like(ctx):
    """The same with a template."""
    m = source(ctx)
    t = model(ctx, shape=(ctx.int(1, 3), *m.shape[1:]), crs="rand")
    from gen import build

    like = build(ctx, t)
    match = ctx.chance(0.6)
    two_d = m.shape[0] == 1 and ctx.chance(0.3)
    arr = as_array(ctx, m.data, m, two_d)
    kw = {"match_chunks": match}
    w = M(m.data, np.zeros(m.shape, bool), None, t.x, t.y, t.crs)
    stored = m.data
    mode = ctx.choice(["none", "nv", "mask"])
    burn = False
    if mode == "nv":
        nv = m.nv if m.nv is not None else (True if m.dtype.kind == "b" else m.data.ravel()[0].item())
        kw["nv"] = w.nv = nv
        w.mask = np.isnan(m.data) if same_value(nv, np.nan) else m.data == nv
    elif mode == "mask":
        burn = ctx.chance(0.5)
        kw.update(mask=as_array(ctx, m.mask, m, two_d), burn=burn)
        w.mask = m.mask
        w.nv = default_null(m.dtype)
        if m.nv is not None and ctx.chance(0.7):
            kw["nv"] = w.nv = m.nv
        ctx.count("masks_given")
        if burn:
            stored = np.where(m.mask, np.asarray(w.nv, m.dtype), m.data)
            ctx.count("burned")
    form = ctx.choice(["raster", "raster_xr", "ds", "xr"] if mode != "mask" else ["raster", "raster_xr", "ds"])
    ctx.note(m.data, mode, form, match)
    ctx.describe(model=m.desc(), template=t.desc(), mode=mode, form=form, match=match)
    ctx.interesting(w.mask.any() or not match)
    bands = False
    with sut(ctx):
        if form == "raster":
            r = rts.data_to_raster_like(arr, like, **kw)
        elif form == "raster_xr":
            r = rts.data_to_raster_like(arr, like.xdata, **kw)
        elif form == "ds":
            r = rts.Raster(rts.data_to_xr_raster_ds_like(arr, like.xdata, **kw))
        else:
            bands = ctx.chance(0.5)
            xd = rts.data_to_xr_raster_like(arr, like.xdata, match_band_dim=bands, **kw)
            r = rts.dataarray_to_raster(xd)
    if bands and m.shape[0] == 1:
        n = t.shape[0]
        w.data, w.mask = np.repeat(w.data, n, 0), np.repeat(w.mask, n, 0)
        stored = np.repeat(stored, n, 0)
    o = judge(ctx, r, w, w.data, "like", burned=burn, stored=stored)
    if match:
        ctx.check(o.chunks[1:] == like.data.chunks[1:], "like:chunks", "the template's chunks were not taken", got=o.chunks, want=like.data.chunks)
    views(ctx, r, o)


def f_bare(ctx):
    """Raster(array): NaN is null in floating point arrays, the grid is the default one."""
    m = source(ctx, nulls=False)
    data = m.data.copy()
    if m.dtype.kind == "f" and ctx.chance(0.6):
        data[ctx.rng.random(m.shape) < 0.3] = np.nan
    two_d = ctx.chance(0.3)
    if two_d:
        m = M(m.data[:1], m.mask[:1], None, m.x, m.y, None)
        data = data[:1]
    arr = as_array(ctx, data, m, two_d)
    has = m.dtype.kind == "f" and (isinstance(arr, da.Array) or np.isnan(data).any())
    w = M(data, np.isnan(data) if m.dtype.kind == "f" else np.zeros(data.shape, bool), None, np.arange(data.shape[2]) + 0.5,
          np.arange(data.shape[1])[::-1] + 0.5, None)
    if has:
        w.nv = default_null(m.dtype)
    ctx.note(data, str(arr.__class__), str(getattr(arr, "chunks", "")))
    ctx.describe(model=m.desc(), nans=int(w.mask.sum()), array=type(arr).__name__)
    ctx.interesting(w.mask.any())
    with sut(ctx):
        r = rts.Raster(arr) if ctx.chance(0.6) else rts.get_raster(arr, strict=False)
    o = judge(ctx, r, w, data, "bare", burned=True)
    views(ctx, r, o)


def f_xarray(ctx):
    """DataArrays with a mask of their own, and Datasets."""
    m = source(ctx, nulls=True, dtypes=[d for d in DT if d != "bool"])
    nb, ny, nx = m.shape
    fx, fy = flips(ctx)
    data, mask, x, y = m.data, m.mask, m.x, m.y
    if fx:
        x, data, mask = x[::-1], data[:, :, ::-1], mask[:, :, ::-1]
    if fy:
        y, data, mask = y[::-1], data[:, ::-1], mask[:, ::-1]
    if fx or fy:
        ctx.count("flipped")
    lazy = ctx.chance(0.6)
    cs = (ctx.choice([(1,) * nb, (nb,)]), rand_chunks(ctx, ny), rand_chunks(ctx, nx))

    # the mask may come in chunks of its own
    cm = cs if ctx.chance(0.6) else (ctx.choice([(1,) * nb, (nb,)]), rand_chunks(ctx, ny), rand_chunks(ctx, nx))

    def arr(a, c=cs):
        return da.from_array(a.copy(), chunks=c) if lazy else a.copy()

    coords = {"band": np.arange(nb) + ctx.choice([1, 1, 0, 4]), "y": y.copy(), "x": x.copy()}
    xd = xr.DataArray(arr(data), dims=("band", "y", "x"), coords=coords)
    xm = xr.DataArray(arr(mask, cm), dims=("band", "y", "x"), coords=coords)
    given_nv = ctx.chance(0.8)
    if given_nv:
        xd = xd.rio.write_nodata(m.nv)
    crs_arg = None
    form = ctx.choice(["raster", "ds", "dataset", "dataset"])
    if m.crs is not None:
        if form in ("raster", "ds") and ctx.chance(0.4):
            crs_arg = m.crs
        else:
            xd, xm = xd.rio.write_crs(m.crs), xm.rio.write_crs(m.crs)
    ctx.note(data, mask, form, lazy, fx, fy, cs, cm, str(m.nv))
    ctx.describe(model=m.desc(), form=form, lazy=lazy, flipx=fx, flipy=fy, chunks=cs, mask_chunks=cm, given_nv=given_nv)
    ctx.interesting(m.mask.any())
    w = m.copy()
    burned = False
    with sut(ctx):
        if form in ("raster", "ds"):
            if ctx.chance(0.3):  # and the other way up
                xm = xm.isel(y=slice(None, None, -1))
            if not given_nv:
                xd = xd.rio.write_nodata(m.nv)
            if form == "raster":
                r = rts.dataarray_to_raster(xd, xmask=xm, crs=crs_arg)
            else:
                r = rts.Raster(rts.dataarray_to_xr_raster_ds(xd, xmask=xm, crs=crs_arg))
        else:
            if not given_nv and (lazy or (m.dtype.kind == "f")):
                xd = xd.rio.write_nodata(m.nv)
                given_nv = True
            ds = xr.Dataset({"raster": xd, "mask": xm})
            if m.crs is not None and ctx.chance(0.5):
                ds = ds.rio.write_crs(m.crs)
            if lazy:
                ctx.count("lazy_datasets")
            else:
                burned = True
                w.nv = default_null(m.dtype) if not given_nv or same_value(m.nv, np.nan) else m.nv
            if lazy:
                # either taken as it is or with the null value put in
                w.nv = None
            r = rts.Raster(ds)
            if lazy:
                ctx.check(any(same_value(r.null_value, v) for v in (m.nv, default_null(m.dtype))), "xarray:lazy_null", got=r.null_value, want=m.nv)
                w.nv = r.null_value
    o = judge(ctx, r, w, m.data, "xarray:" + form, burned=burned)
    views(ctx, r, o)


def f_encoded(ctx):
    """DataArrays whose null cells were turned into NaN on reading, the null value of the file being kept as encoding (masked=True of rioxarray)."""
    m = source(ctx, nulls=True, dtypes=["float32", "float64"])
    nv = float(ctx.choice([-9999.0, 255.0, 0.0, -1.0]))
    data = np.where(m.mask | np.isnan(m.data), m.dtype.type(np.nan), m.data)
    lazy = ctx.chance(0.5)
    arr = da.from_array(data.copy(), chunks=(1, rand_chunks(ctx, m.shape[1]), rand_chunks(ctx, m.shape[2]))) if lazy else data.copy()
    xd = xr.DataArray(arr, dims=("band", "y", "x"), coords={"band": np.arange(len(data)) + 1, "y": m.y.copy(), "x": m.x.copy()})
    if m.crs is not None:
        xd = xd.rio.write_crs(m.crs)
    xd = xd.rio.write_nodata(nv, encoded=True)
    form = ctx.choice(["raster", "get", "convert"])
    ctx.note(data, nv, lazy, form)
    ctx.describe(model=m.desc(), nv=nv, lazy=lazy, form=form)
    w = M(data, np.isnan(data), None, m.x, m.y, m.crs)
    ctx.interesting(w.mask.any())
    ctx.count("encoded_nulls")
    with sut(ctx):
        r = {"raster": rts.Raster, "get": lambda v: rts.get_raster(v, strict=False), "convert": rts.dataarray_to_raster}[form](xd)
        w.nv = r.null_value
    ctx.check(w.nv is not None or not w.mask.any(), "encoded:null", "the null cells got lost", nulls=int(w.mask.sum()))
    o = judge(ctx, r, w, data, "encoded", burned=False)
    views(ctx, r, o)


def f_refuse(ctx):
    """Inconsistent input is refused."""
    m = source(ctx, nulls=True, dtypes=["int32", "float64", "uint8"])
    a, k = m.data, m.mask
    x, y = m.x, m.y
    which = ctx.enum(["x_only", "y_only", "short_x", "long_y", "mask_shape", "ndim1", "ndim4", "list", "like_shape", "like_mask", "dataset_vars", "dataset_mask", "none", "strict"])
    ctx.note(which, a)
    ctx.describe(which=which)
    ctx.interesting()
    calls = {
        "x_only": lambda: rts.data_to_raster(a, x=x),
        "y_only": lambda: rts.data_to_raster(a, y=y),
        "short_x": lambda: rts.data_to_raster(a, x=x[:-1], y=y),
        "long_y": lambda: rts.data_to_raster(a, x=x, y=np.append(y, y[-1] - 1)),
        "mask_shape": lambda: rts.data_to_raster(a, mask=k[:, :-1], x=x, y=y),
        "ndim1": lambda: rts.data_to_raster(a.ravel()),
        "ndim4": lambda: rts.data_to_raster(a[None]),
        "list": lambda: rts.data_to_raster(a.tolist()),
        "like_shape": lambda: rts.data_to_raster_like(a[:, :-1], rts.data_to_raster(a)),
        "like_mask": lambda: rts.data_to_raster_like(a, rts.data_to_raster(a), mask=k[:, :, :-1]),
        "dataset_vars": lambda: rts.Raster(xr.Dataset({"raster": (("band", "y", "x"), a)}, coords={"band": np.arange(len(a)) + 1, "y": y, "x": x})),
        "dataset_mask": lambda: rts.Raster(xr.Dataset({"raster": (("band", "y", "x"), a), "mask": (("band", "y", "x"), k.astype("u1"))},
                                                      coords={"band": np.arange(len(a)) + 1, "y": y, "x": x})),
        "none": lambda: rts.Raster(None),
        "strict": lambda: rts.get_raster(a),
    }
    expect_raises(ctx, "refuse:" + which, calls[which], ValueError, TypeError, msg=f"{which} was accepted")
    ctx.count("refused")


FAMILIES = {"arrays": (f_arrays, 300, 5000), "like": (f_like, 150, 2500), "bare": (f_bare, 80, 1200), "xarray": (f_xarray, 200, 3000), "encoded": (f_encoded, 60, 900), "refuse": (f_refuse, 28, 56)}
