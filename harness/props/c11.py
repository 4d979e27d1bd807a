"""Saving and reopening gives the same raster."""
import os
import pathlib
import re
import threading
import time

import dask
import dask.array as da
import numpy as np
import raster_tools as rts
import rasterio as rio
import xarray as xr
from affine import Affine

import gen
from core import Skip, sut

PROP = "C11"
RULE = ("one case = one raster saved (driver, options, schedule) and read back both through raster_tools and directly with rasterio, or one file "
        "of another origin opened; non-trivial when the raster has nulls, several bands or several chunks")
REQUIRED = ["files_read_back", "cells_compared", "tiles_read", "unburned_saved", "cog_files", "options_verified", "overview_cells", "delayed_saves", "foreign_files",
            "dataset_variables", "lazy_chains"]

DT = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "float16", "bool"]


def safe_null(ctx, dtype):
    """Null values a GeoTIFF can hold (a double) and the raster's dtype too."""
    return gen.rand_null(ctx, dtype)


def gen_model(ctx, dtypes=DT, **kw):
    kw.setdefault("max_side", 14)
    m = gen.model(ctx, dtypes=dtypes, min_side=2, unburned=ctx.chance(0.3), **kw)
    return m


def saved_form(m, null_value=None):
    """What the file must hold for the model: (data, mask, null, dtype)."""
    nv = m.nv if null_value is None else m.dtype.type(null_value)
    if m.dtype.kind == "b":
        d = m.data.astype("uint8")
        if m.nv is None and null_value is None:
            return d, m.mask, None, np.dtype("uint8")
        return np.where(m.mask, 255, d).astype("uint8"), m.mask, 255, np.dtype("uint8")
    if m.dtype.name in ("int64", "uint64") and nv is not None and abs(int(nv)) > 2**53:
        return m.data.astype("f8"), m.mask, float(nv), np.dtype("f8")
    return m.data, m.mask, nv, m.dtype


def compare_file(ctx, path, m, form, key="file"):
    """The file read with rasterio alone."""
    d, mask, nv, dt = form
    with rio.open(path) as f:
        got = f.read()
        ctx.count("files_read_back")
        ctx.check(got.shape == d.shape, key + ":shape", got=got.shape, want=d.shape)
        ctx.check(all(np.dtype(t) == dt for t in f.dtypes), key + ":dtype", "stored dtype differs", got=f.dtypes, want=dt)
        ctx.check(gen.crs_same(f.crs, m.crs), key + ":crs", got=f.crs, want=m.crs)
        t = f.transform
        wx = t.c + t.a * (np.arange(f.width) + 0.5)
        wy = t.f + t.e * (np.arange(f.height) + 0.5)
        ctx.check(np.allclose(wx, m.x, rtol=1e-12, atol=1e-6) and np.allclose(wy, m.y, rtol=1e-12, atol=1e-6), key + ":grid", got=(wx, wy), want=(m.x, m.y))
        if nv is None:
            ctx.check(f.nodata is None or np.isnan(f.nodata), key + ":nodata", "a null value appeared", got=f.nodata)
        else:
            ctx.check(f.nodata is not None and gen.same_value(float(f.nodata), float(nv)), key + ":nodata", "null value not stored", got=f.nodata, want=nv)
            burned = got[mask]
            want = np.isnan(burned) if gen.same_value(nv, np.nan) else burned == np.asarray(nv).astype(dt)
            ctx.check(bool(np.all(want)), key + ":null_cells", "null cells do not hold the null value in the file", got=burned, want=nv)
        v = ~mask
        ctx.count("cells_compared", v.sum())
        ctx.check(gen.arrays_same(got[v], d[v].astype(dt)), key + ":values", "stored values differ", got=got, want=d, mask=mask)


def compare_raster(ctx, r, m, form, key="reopened", nan_alias=False):
    d, mask, nv, dt = form
    o = gen.Obs(r)
    gen.check_wellformed(ctx, o, key=key + ":form")
    ctx.check(o.data.shape == d.shape, key + ":shape", got=o.data.shape, want=d.shape)
    ctx.check(o.data.dtype == dt, key + ":dtype", got=o.data.dtype, want=dt)
    if nv is None and dt.kind == "f":
        ctx.check(o.null is None or np.isnan(o.null) or nan_alias, key + ":null_value", got=o.null)
    elif not (nan_alias and nv is not None and np.isnan(nv) and o.null == rts.masking.get_default_null_value(dt)):
        ctx.check(gen.same_value(o.null, nv), key + ":null_value", got=o.null, want=nv)
    gen.check_grid(ctx, o, m, key=key + ":grid")
    gen.check_cells(ctx, o, d.astype(dt), mask, key=key)


def options(ctx, m, driver):
    """Writer options and the checks they promise: {kwargs}, verify(file)."""
    kw, ver = {}, []
    if driver == "COG":
        if ctx.chance(0.4):
            side = 128 * ctx.int(1, 4)
            kw["blocksize"] = ctx.choice([side, (side, side)])
            ver.append(("blocks", lambda f: f.block_shapes[0] == (side, side)))
    elif ctx.chance(0.3):
        kw["tiled"] = False
        ver.append(("tiled", lambda f: f.profile.get("tiled") is not True and f.block_shapes[0][1] == f.width))
    elif ctx.chance(0.5):
        bs = ctx.choice([16, 32, 64, (16, 32), (48, 16)])
        kw["blocksize"] = bs
        want = (bs, bs) if isinstance(bs, int) else bs
        ver.append(("blocks", lambda f: f.block_shapes[0] == want))
    comp = ctx.choice([None, None, "lzw", "deflate", "zstd", "packbits", "LZW"]) if driver != "COG" else ctx.choice([None, "lzw", "deflate", "zstd"])
    if comp:
        kw["compress"] = comp
        ver.append(("compress", lambda f: f.compression is not None and f.compression.name.lower() == comp.lower()))
        if comp in ("deflate", "zstd") and ctx.chance(0.5):
            kw["compress_level"] = ctx.int(1, 9)
        if comp != "packbits" and ctx.chance(0.4) and m.dtype.kind != "b" and m.dtype.itemsize > 1 and m.dtype != np.dtype("float16"):
            kw["predictor"] = "float" if m.dtype.kind == "f" else ctx.choice(["horizontal", 2])
            code = "3" if kw["predictor"] == "float" else "2"
            ver.append(("predictor", lambda f: f.tags(ns="IMAGE_STRUCTURE").get("PREDICTOR") == code))
    else:
        ver.append(("compress", lambda f: f.compression is None))
    if ctx.chance(0.3):
        kw["bigtiff"] = ctx.choice([True, False, "yes", "if_needed"])
    if driver != "COG" and ctx.chance(0.3):
        il = ctx.choice(["pixel", "band"])
        kw["interleave"] = il
        if m.shape[0] > 1:
            ver.append(("interleave", lambda f: f.profile["interleave"] == il))
    if ctx.chance(0.25) and driver != "COG" and m.dtype != np.dtype("float16"):
        kw["overviews"] = ctx.choice([True, [2], [2, 4]])
        kw["overview_resampling"] = ctx.choice(["nearest", "average", "mode"])
        fac = [] if kw["overviews"] is True else list(kw["overviews"])
        ver.append(("overviews", lambda f: all(len(f.overviews(i)) == len(fac) for i in f.indexes)))
    return kw, ver


DRIVERS = [(".tif", None), (".tiff", None), (".TIF", None), (".tif", "GTiff"), (".tif", "COG"), (".img", "HFA"), (".dat", "ENVI"), ("", "GTiff")]


def representable(m, driver, nv):
    """Formats other than GeoTIFF hold fewer dtypes."""
    if driver == "HFA":
        return m.dtype.name in ("uint8", "uint16", "int16", "uint32", "int32", "float32", "float64")
    if driver == "ENVI":
        return m.dtype.name in ("uint8", "uint16", "int16", "uint32", "int32", "float32", "float64")
    return True


def f_roundtrip(ctx):
    ext, driver = ctx.choice(DRIVERS, p=[0.3, 0.08, 0.05, 0.15, 0.2, 0.08, 0.08, 0.06])
    dts = DT if driver not in ("HFA", "ENVI") else ["uint8", "uint16", "int16", "uint32", "int32", "float32", "float64"]
    m = gen_model(ctx, dtypes=dts, crs=ctx.choice(["EPSG:5070", "EPSG:32611", "EPSG:4326"] + ([None] if driver not in ("HFA", "ENVI") else [])))
    r = gen.build(ctx, m)
    path = os.path.join(ctx.tmp, "out" + ext)
    kw, ver = ({}, []) if driver in ("HFA", "ENVI") else options(ctx, m, driver)
    nvarg = None
    if ctx.chance(0.25) and m.dtype.kind != "b":
        cand = [v for v in ([111, 113, 127] if m.dtype.kind in "ui" else [-77777.0, -12345.5, 113.0] if m.dtype.itemsize > 2 else [-113.5, 113.0]) if m.dtype.itemsize > 2 or abs(v) < 30000]
        cand = [v for v in cand if not (m.data[m.valid] == m.dtype.type(v)).any()]
        if cand:
            nvarg = ctx.choice(cand)
    if m.unburned and m.mask.any():
        ctx.count("unburned_saved")
    if driver == "COG":
        ctx.count("cog_files")
    ctx.describe(ext=ext, driver=driver, options=kw, null_value=nvarg)
    ctx.interesting(m.mask.any() or m.shape[0] > 1 or len(r.data.chunks[1]) > 1)
    if driver:
        kw = {**kw, "driver": driver}
    if nvarg is not None:
        kw[ctx.choice(["null_value", "null_value", "no_data_value"])] = nvarg
    before = set(os.listdir(ctx.tmp))
    with sut(ctx), dask.config.set(scheduler=ctx.choice(["sync", "threads"])):
        back = r.save(path, **kw)
    form = saved_form(m, nvarg)
    compare_file(ctx, path, m, form)
    with rio.open(path) as f:
        want_driver = driver if driver != "COG" else "GTiff"
        ctx.check(f.driver == (want_driver or "GTiff"), "option:driver", got=f.driver, want=want_driver)
        if driver == "COG":
            ctx.check(f.tags(ns="IMAGE_STRUCTURE").get("LAYOUT") == "COG", "option:cog", "the file is not a COG", tags=f.tags(ns="IMAGE_STRUCTURE"))
        for name, fn in ver:
            ctx.count("options_verified")
            ctx.check(fn(f), "option:" + name, f"the writer option was not honoured: {name}", kwargs=kw, profile=dict(f.profile), tags=f.tags(ns="IMAGE_STRUCTURE"),
                      overviews=[f.overviews(i) for i in f.indexes])
    left = set(os.listdir(ctx.tmp)) - before - {os.path.basename(path)}
    left = {x for x in left if not (x.startswith("out") and x.rsplit(".", 1)[-1] in ("xml", "hdr", "ovr", "ige", "rrd"))}
    ctx.check(not left, "leftovers", "other files were left behind", got=left)
    compare_raster(ctx, back, m, form)
    p2 = pathlib.Path(path) if ctx.chance(0.4) else path
    compare_raster(ctx, rts.Raster(p2), m, form, key="opened")
    # a second generation is the same again
    if ctx.chance(0.3) and form[3] == m.dtype:
        path2 = os.path.join(ctx.tmp, "again.tif")
        compare_raster(ctx, rts.Raster(path).save(path2), m, form, key="second")
    # the raster that was saved still holds its own values
    o = gen.Obs(r)
    ctx.check(np.array_equal(o.mask, m.mask) and gen.arrays_same(o.data[m.valid], m.data[m.valid]) and gen.same_value(o.null, m.nv), "saved_raster_changed",
              "saving changed the raster", got=o.data, want=m.data)


def f_lazy_chain(ctx):
    """What is saved is what computing the same lazy raster gives."""
    m = gen_model(ctx, dtypes=["uint8", "int16", "int32", "float32", "float64"], max_side=18)
    r = gen.build(ctx, m)
    ops = []
    for _ in range(ctx.int(1, 3)):
        k = ctx.choice(["add", "neg", "cmp", "focal", "astype", "local", "clip", "bands", "null", "where", "replace"])
        ops.append(k)
        if k == "add":
            r = r + ctx.choice([1, 2.5])
        elif k == "neg":
            r = r * 2
        elif k == "cmp":
            r = r > 10
        elif k == "focal" and r.dtype != bool:
            r = rts.focal.focal(r, "max", 3, ctx.choice([1, 3]))
        elif k == "astype":
            r = r.astype(ctx.choice(["float32", "int32", "float64"]))
        elif k == "local" and r.dtype != bool:
            r = rts.general.local_stats(r, "max")
        elif k == "bands":
            r = r.get_bands(ctx.int(1, r.nbands))
        elif k == "null" and r.dtype != bool:
            r = r.set_null_value(ctx.choice([99, 7]))
        elif k == "where":
            r = r.where(r > 3, ctx.choice([0, 1])) if r.dtype != bool else r
        elif k == "replace" and r.dtype != bool:
            r = r.replace_null(5)
    ctx.count("lazy_chains")
    ctx.describe(ops=ops)
    ctx.interesting()
    o = gen.Obs(r)
    want = gen.M(o.data, o.mask, o.null, o.x, o.y, o.crs)
    if o.data.dtype.kind == "f" and np.isnan(o.data[~o.mask]).any():
        raise Skip("NaN values are null in files")
    if o.null is not None and o.data.dtype.kind != "b" and (o.data[~o.mask] == o.null).any():
        raise Skip("valid cells hold the null value: a file cannot tell them from null cells")
    form = saved_form(want)
    path = os.path.join(ctx.tmp, "chain.tif")
    with sut(ctx), dask.config.set(scheduler=ctx.choice(["sync", "threads"])):
        back = r.save(path, driver=ctx.choice([None, "COG"]))
    compare_file(ctx, path, want, form)
    compare_raster(ctx, back, want, form)


def f_delays(ctx):
    """Blocks arriving in any order and saves running at once do not mix up files."""
    ctx.count("delayed_saves")
    n = ctx.int(1, 3)
    jobs = []
    for i in range(n):
        m = gen_model(ctx, dtypes=["uint8", "int32", "float32"], max_side=20)
        base = gen.build(ctx, m)
        delays = ctx.rng.integers(0, 4, size=64) * 1e-3
        cnt = iter(range(10**9))

        def slow(x, delays=delays, cnt=cnt):
            time.sleep(delays[next(cnt) % 64])
            return x

        data = base.data.map_blocks(slow, dtype=m.dtype, meta=np.array((), dtype=m.dtype))
        r = rts.data_to_raster(data, mask=base.mask if m.nv is not None else None, x=m.x, y=m.y, crs=m.crs, nv=m.nv)
        jobs.append((m, r, os.path.join(ctx.tmp, f"f{i}.tif"), ctx.choice([None, "COG"])))
    errs = []

    def run(m, r, p, drv):
        try:
            with dask.config.set(scheduler="threads", num_workers=4):
                r.save(p, driver=drv)
        except Exception as e:  # noqa: BLE001
            errs.append(e)

    ths = [threading.Thread(target=run, args=j) for j in jobs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    ctx.interesting()
    if errs:
        with sut(ctx):
            raise errs[0]
    for m, r, p, drv in jobs:
        form = saved_form(m)
        compare_file(ctx, p, m, form, key="delayed")
        compare_raster(ctx, rts.Raster(p), m, form, key="delayed")
    left = {x for x in os.listdir(ctx.tmp)} - {os.path.basename(j[2]) for j in jobs}
    ctx.check(not left, "leftovers", "other files were left behind", got=left)


def f_tiles(ctx):
    dts = ["uint8", "int16", "int32", "float32", "float64", "uint16", "bool"]
    m = gen_model(ctx, dtypes=dts, max_side=16, crs=ctx.choice(["EPSG:5070", "EPSG:32611"]), mask_style=None)
    if ctx.chance(0.1):
        ny = ctx.int(11, 13)
        m = gen_model(ctx, dtypes=dts, shape=(ctx.int(1, 2), ny, 6), crs="EPSG:5070")
        chunks = ((1,) * ny, (6,))
    else:
        chunks = (gen.rand_chunks(ctx, m.shape[1]), gen.rand_chunks(ctx, m.shape[2]))
        # single rows and columns carry no cell size of their own
        chunks = tuple(tuple(c) if min(c) > 1 else (sum(c),) if ctx.chance(0.7) else tuple(c) for c in chunks)
    r = gen.build(ctx, m, chunks=chunks)
    per_band = ctx.chance(0.4)
    driver = ctx.choice([None, None, "GTiff", "COG", "HFA"]) if m.dtype.kind != "b" else None
    ext = ctx.choice([None, None, ".tif", "tiff"]) if driver is None else None
    kw = {}
    if driver:
        kw["driver"] = driver
    nvarg = None
    if ctx.chance(0.2) and m.dtype.kind != "b" and not (m.data[m.valid] == 111).any():
        nvarg = kw[ctx.choice(["null_value", "null_value", "no_data_value"])] = 111
    sub = ctx.choice(["t", "sub/dir/tile", "a.b"])
    prefix = os.path.join(ctx.tmp, "tiles", sub)
    if ctx.chance(0.3):
        prefix = pathlib.Path(prefix)
    ctx.describe(per_band=per_band, driver=driver, ext=ext, prefix=sub, null_value=nvarg)
    with sut(ctx):
        out = r.save_chunks(prefix, per_band=per_band, ext=ext, **kw)
    nb, (cy, cx) = m.shape[0], chunks
    shape = (nb, len(cy), len(cx)) if per_band else (len(cy), len(cx))
    ctx.check(out.shape == shape, "tiles:array", got=out.shape, want=shape)
    wext = {None: ".tif", "GTiff": ".tif", "COG": ".tif", "HFA": ".img"}[driver] if ext is None else "." + ext.lstrip(".")
    yo, xo = np.r_[0, np.cumsum(cy)], np.r_[0, np.cumsum(cx)]
    w = lambda n, i: str(i).zfill(max(1, len(str(n - 1))))  # noqa: E731
    full = saved_form(m, nvarg)
    names = set()
    seen = np.zeros(m.shape, int)
    ctx.interesting(len(cy) * len(cx) > 1)
    for i in range(len(cy)):
        for j in range(len(cx)):
            for b in (range(nb) if per_band else [None]):
                name = f"{prefix}_" + (f"b{w(nb, b)}_" if per_band else "") + f"{w(len(cy), i)}_{w(len(cx), j)}{wext}"
                names.add(os.path.realpath(name))
                ctx.check(os.path.exists(name), "tiles:name", "expected tile file is missing", want=os.path.basename(name), got=sorted(os.listdir(os.path.dirname(name))))
                ys, xs = slice(yo[i], yo[i + 1]), slice(xo[j], xo[j + 1])
                bs = slice(None) if b is None else slice(b, b + 1)
                seen[bs, ys, xs] += 1
                tm = gen.M(m.data[bs, ys, xs], m.mask[bs, ys, xs], m.nv, m.x[xs], m.y[ys], m.crs)
                form = (full[0][bs, ys, xs], full[1][bs, ys, xs], full[2], full[3])
                compare_file(ctx, name, tm, form, key="tile")
                got = out[i, j] if b is None else out[b, i, j]
                compare_raster(ctx, got, tm, form, key="tile_raster")
                ctx.count("tiles_read")
    ctx.check((seen == 1).all(), "tiles:cover", "harness: tiles do not cover the raster")
    found = {os.path.realpath(os.path.join(d, f)) for d, _, fs in os.walk(os.path.join(ctx.tmp, "tiles")) for f in fs}
    extra = {os.path.basename(f) for f in found - names if not f.endswith((".xml", ".ige"))}
    ctx.check(not extra, "tiles:extra", "unexpected files were written", got=extra)


def f_foreign(ctx):
    """Files written by other programs: orientation, blocks, null values, many layouts."""
    ctx.count("foreign_files")
    m = gen.model(ctx, dtypes=["uint8", "uint16", "int16", "int32", "uint32", "float32", "float64", "int8"], min_side=2, max_side=40, crs=ctx.choice(["EPSG:5070", "EPSG:4326", None]))
    nb, ny, nx = m.shape
    rx, ry = m.x[1] - m.x[0], m.y[0] - m.y[1]
    south_up = ctx.chance(0.3)
    if south_up:
        t = Affine(rx, 0, m.x[0] - rx / 2, 0, ry, m.y[-1] - ry / 2)
        d = m.data[:, ::-1]
    else:
        t = Affine(rx, 0, m.x[0] - rx / 2, 0, -ry, m.y[0] + ry / 2)
        d = m.data
    kw = {}
    if ctx.chance(0.6):
        kw.update(tiled=True, blockxsize=16 * ctx.int(1, 2), blockysize=16 * ctx.int(1, 2))
    if nb > 1:
        kw["interleave"] = ctx.choice(["band", "pixel"])
    path = os.path.join(ctx.tmp, "in.tif")
    with rio.open(path, "w", driver="GTiff", height=ny, width=nx, count=nb, dtype=m.dtype, nodata=m.nv, crs=m.crs, transform=t, **kw) as f:
        f.write(d)
    ctx.note(m.data, m.mask, str(m.nv), south_up)
    ctx.describe(raster=m.desc(), south_up=south_up, layout=kw)
    ctx.interesting(m.mask.any() or south_up or nb > 1)
    how = ctx.choice(["str", "path", "uri", "xarray"])
    with sut(ctx):
        if how == "xarray":
            import rioxarray
            xrs = rioxarray.open_rasterio(path, chunks=ctx.choice([{}, True, {"band": 1, "y": 7, "x": 5}, None]))
            r = rts.Raster(xrs)
        else:
            r = rts.Raster({"str": path, "path": pathlib.Path(path), "uri": "file://" + path}[how])
        compare_raster(ctx, r, m, (m.data, m.mask, m.nv, m.dtype), key="foreign", nan_alias=how == "xarray")
    ctx.count("files_read_back")


def f_dataset(ctx):
    """netCDF datasets: every 2-D or 3-D variable becomes the raster of its values."""
    rng = ctx.rng
    ny, nx = ctx.int(2, 8), ctx.int(2, 8)
    rx, ry = ctx.choice([1.0, 0.25, 30.0]), ctx.choice([1.0, 0.25, 30.0])
    x = 100.0 + rx * (np.arange(nx) + 0.5)
    y = 500.0 - ry * (np.arange(ny) + 0.5)
    flip = ctx.chance(0.4)
    want, vs, fills = {}, {}, {}
    raw = ctx.chance(0.3)  # the file's numbers as they are
    nt = ctx.int(2, 4)
    for i in range(ctx.int(1, 3)):
        shape = (nt, ny, nx) if ctx.chance(0.5) else (ny, nx)
        dt = ctx.choice(["float32", "float64", "int32", "int16"])
        a = rng.integers(-50, 100, shape).astype(dt)
        dims = ("time", "y", "x")[-len(shape):]
        v = xr.DataArray(a[..., ::-1, :] if flip else a, dims=dims)
        nul = np.zeros(shape, bool)
        if ctx.chance(0.6):
            nul = rng.random(shape) < 0.25
            if np.dtype(dt).kind == "f":
                a = np.where(nul, np.nan, a)
                v = xr.DataArray(a[..., ::-1, :] if flip else a, dims=dims)
            elif ctx.chance(0.6):  # marked by a fill value, which makes xarray read floating point numbers
                a = np.where(nul, np.int16(-99), a).astype(dt)
                v = xr.DataArray(a[..., ::-1, :] if flip else a, dims=dims, attrs={"_FillValue": np.dtype(dt).type(-99)})
                fills[f"v{i}"] = -99
                ctx.count("dataset_fill_values")
            else:
                nul[:] = False
        vs[f"v{i}"] = v
        want[f"v{i}"] = (a.reshape((-1, ny, nx)), nul.reshape((-1, ny, nx)))
    ds = xr.Dataset(vs, coords={"x": x, "y": y[::-1] if flip else y, "time": np.arange(nt)})
    extra = ctx.chance(0.25)
    if extra:
        ds["deep"] = (("a", "time", "y", "x"), np.zeros((2, nt, ny, nx)))
    if ctx.chance(0.3):  # a dimension of size one is none
        k = ctx.choice(sorted(want))
        ds[k] = ds[k].expand_dims("level", ctx.int(0, 1))
        ctx.count("dataset_single_dims")
    ds = ds.rio.write_crs("EPSG:5070")
    path = os.path.join(ctx.tmp, "d.nc")
    ds.to_netcdf(path)
    ctx.note(*[a for a, _ in want.values()], flip)
    ctx.describe(variables={k: str(v[0].shape) for k, v in want.items()}, flip=flip, extra=extra)
    if extra:
        from core import expect_raises
        expect_raises(ctx, "dataset:dims", lambda: rts.open_dataset(path))
    crs = ctx.choice([None, "EPSG:3857"])
    with sut(ctx):
        kw = {"ignore_extra_dim_errors": True} if extra else {}
        if raw:
            kw["xarray_kwargs"] = {"mask_and_scale": False}
        got = rts.open_dataset(path, crs=crs, **kw)
        ctx.check(set(got) == set(want), "dataset:names", got=sorted(got), want=sorted(want))
        for k, (a, nul) in want.items():
            ctx.count("dataset_variables")
            o = gen.Obs(got[k])
            gen.check_wellformed(ctx, o, key="dataset:form")
            mm = gen.M(a, nul, None, x, y, crs or "EPSG:5070")
            gen.check_grid(ctx, o, mm, key="dataset:grid")
            gen.check_cells(ctx, o, a, nul, key="dataset")
            if k in fills and raw:
                ctx.check(gen.same_value(o.null, fills[k]) and o.data.dtype == a.dtype, "dataset:fill", "not the null value and dtype of the file", got=(o.null, o.data.dtype), want=fills[k])
    ctx.interesting()


def f_overviews(ctx):
    """Every overview cell is made of the cells it covers, and the automatic chain stops at small sizes."""
    driver = ctx.choice(["GTiff", "COG"])
    ny, nx = 16 * ctx.choice([16, 31, 32, 33, 64]), 16 * ctx.choice([32, 40, 64])
    dt = np.dtype(ctx.choice(["uint8", "int16", "float32"]))
    base = ctx.rng.integers(0, 200, (ny // 8, nx // 8))
    data = np.kron(base, np.ones((8, 8), int)) + ctx.rng.integers(0, 40, (ny, nx))
    data = data.astype(dt)[None]
    nv = 255 if dt == np.uint8 else -5
    mask = np.kron(ctx.rng.random((ny // 4, nx // 4)) < 0.2, np.ones((4, 4), bool))[None] | (ctx.rng.random(data.shape) < 0.1)
    x, y = 30.0 * np.arange(nx) + 15, 30.0 * np.arange(ny)[::-1] + 15
    m = gen.M(np.where(mask, dt.type(nv), data), mask, nv, x, y, "EPSG:5070")
    r = gen.build(ctx, m, chunks=((ny // 2, ny - ny // 2), (nx,)))
    ov = True if driver == "COG" or ctx.chance(0.6) else ctx.choice([[2], [4, 8], (2, 4, 16)])
    how = ctx.choice(["average", "nearest", None])  # GDAL's mode gives 0 for some blocks of nulls
    ctx.describe(driver=driver, shape=(ny, nx), dtype=str(dt), overviews=ov, resampling=how)
    ctx.note(driver, ny, nx, str(dt), str(ov), how)
    ctx.interesting()
    kw = {} if how is None else {"overview_resampling": how}
    if driver == "COG":
        kw["blocksize"] = 256
    path = os.path.join(ctx.tmp, "o.tif")
    with sut(ctx):
        r.save(path, driver=driver, overviews=ov, **kw)
    with rio.open(path) as f:
        fac = f.overviews(1)
    ctx.check(fac == list(ov) if ov is not True else fac == [2**k for k in range(1, len(fac) + 1)], "overviews:factors", got=fac, want=ov)
    if ov is True and driver == "GTiff":
        small = [min(ny, nx) / k for k in fac]
        ctx.check(all(v >= 128 for v in small) and min([min(ny, nx)] + small) <= 512, "overviews:chain", "the chain stops too early or too late", got=fac, shape=(ny, nx))
    for level, k in enumerate(fac):
        if ny % k or nx % k:
            continue
        with rio.open(path, overview_level=level) as f:
            got = f.read(1)
        ctx.check(got.shape == (ny // k, nx // k), "overviews:shape", got=got.shape, want=(ny // k, nx // k))
        blk = lambda a: a.reshape(ny // k, k, nx // k, k)  # noqa: E731
        null = got == dt.type(nv)
        mm, d = blk(mask[0]), blk(data[0].astype(float))
        lo, hi = np.where(mm, np.inf, d).min((1, 3)), np.where(mm, -np.inf, d).max((1, 3))
        ok = np.where(null, mm.any((1, 3)), (got >= lo - 1e-3) & (got <= hi + 1e-3))
        ctx.count("overview_cells", ok.size)
        if not ok.all():
            i, j = np.argwhere(~ok)[0]
            ctx.fail("overviews:cell", f"an overview cell is not made of the cells it covers; {int((~ok).sum())} of {ok.size} at factor {k}",
                     at=(int(i), int(j)), got=got[i, j], lo=lo[i, j], hi=hi[i, j])


FAMILIES = {
    "overviews": (f_overviews, 14, 120),
    "roundtrip": (f_roundtrip, 360, 6000),
    "lazy_chain": (f_lazy_chain, 100, 1500),
    "delays": (f_delays, 60, 800),
    "tiles": (f_tiles, 90, 1200),
    "foreign": (f_foreign, 120, 1500),
    "dataset": (f_dataset, 50, 500),
}
