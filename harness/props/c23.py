"""C23: block mapping hands each function call exactly its cells, once, and assembles what it returns.

The function given to map_blocks & co. is instrumented: every call records its arguments.
An offline checker walks the recorded log: each output block is produced by exactly one call,
and the data, masks, null values, coordinates and location handed to that call are the ones the
block covers in the (padded) input. A second oracle compares the assembled raster.
"""
import threading

import dask
import numpy as np
import xarray as xr

import raster_tools as rts
from raster_tools import blocks
from raster_tools.masking import get_default_null_value
from core import Skip, expect_raises
from gen import (M, Obs, build, check_cells, check_grid, check_wellformed, crs_same, model, rand_data, rand_mask, rand_null,
                 same_value)

PROP = "C23"
RULE = ("map_blocks, map_overlap, geo_map_blocks and geo_map_overlap over 1-3 rasters (all dtypes, null patterns, different "
        "chunk layouts per input, chunks down to one cell), with every optional per-block argument, out_bands, return_mask, "
        "dtype/meta hints, every boundary, symmetric and one-sided depths; an instrumented function logs each call and the log is "
        "checked for exactly-once coverage and exact arguments. Non-trivial: more than one block, several inputs or nulls.")
DT = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "float16", "bool"]

# The log of the case that is running. Module level: the function is serialised by dask for its token.
LOG = []
META = []
LOCK = threading.Lock()


def _plain(a):
    return np.array(a.data if isinstance(a, xr.DataArray) else a)


def _record(args, kw):
    bi = kw.get("block_info")
    rec = dict(data=[_plain(a) for a in args], thread=threading.get_ident())
    rec["types"] = [type(a).__name__ for a in args]
    if isinstance(args[0], xr.DataArray):
        rec["coords"] = [{c: np.array(a[c].values) for c in ("band", "y", "x")} for a in args]
        rec["crs"] = [a.rio.crs for a in args]
        rec["nodata"] = [a.rio.nodata for a in args]
    for k in ("input_null_values", "out_null_value", "block_id"):
        if k in kw:
            rec[k] = kw[k]
    if "input_masks" in kw:
        rec["masks"] = [_plain(a) for a in kw["input_masks"]]
        if isinstance(kw["input_masks"][0], xr.DataArray):
            rec["mask_coords"] = [{c: np.array(a[c].values) for c in ("band", "y", "x")} for a in kw["input_masks"]]
    if bi is not None:
        rec["loc"] = tuple(bi[None]["chunk-location"])
        rec["array_loc"] = [tuple(x) for x in bi[None]["array-location"]]
        rec["numblocks"] = tuple(bi[None]["num-chunks"])
    g = kw.get("geo_block_info")
    if g is not None:
        rec["gbi"] = dict(shape=g.shape, affine=tuple(g.affine)[:6], crs=g.crs, band=(g.band_slice.start, g.band_slice.stop),
                          row=(g.row_slice.start, g.row_slice.stop), col=(g.col_slice.start, g.col_slice.stop),
                          loc=tuple(g.chunk_location), x=np.array(g.x), y=np.array(g.y), bounds=g.bbox.bounds,
                          parent_shape=tuple(g.parent_shape), parent_affine=tuple(g.parent_affine)[:6], gband=np.array(g.band))
    with LOCK:
        (LOG if bi is not None or rec["data"][0].size else META).append(rec)
    return rec


# ---- the per-cell result of the mapped function, shared by the function and the oracle
def combine(datas, extra, out_dtype, out_bands):
    """A cellwise result; with out_bands, bands are mixed."""
    s = np.zeros(datas[0].shape, "f8")
    for i, d in enumerate(datas):
        s = s + (i + 1) * np.mod(d.astype("f8"), 19)
    s = np.mod(np.round(s) + extra, 97)
    if out_bands is not None:
        t = s.sum(0) if s.size or s.shape[0] else np.zeros(s.shape[1:])
        s = np.stack([np.mod(np.round(t) + 3 * b, 97) for b in range(out_bands)])
    out = np.mod(s, 2) > 0 if np.dtype(out_dtype).kind == "b" else s.astype(out_dtype)
    return out


def result_mask(datas, out_bands):
    m = np.mod(np.floor(datas[0].astype("f8")), 3) == 1
    if out_bands is not None:
        m = np.broadcast_to(m.any(0), (out_bands, *m.shape[1:])).copy()
    return m


def neighbours(a, dy, dx):
    """Sum over the window (-dy..dy, -dx..dx) inside the array only, computed by shifts on mod 19 values."""
    (t, b), (l, r) = dy, dx
    z = np.pad(np.mod(np.round(a.astype("f8")), 19), ((0, 0), (t, b), (l, r)))
    n = np.zeros(a.shape, "f8")
    for i in range(t + b + 1):
        for j in range(l + r + 1):
            n = n + z[:, i:i + a.shape[1], j:j + a.shape[2]]
    return n


def _f_all(*args, input_masks, input_null_values, block_info, block_id, out_null_value, extra, spec):
    kw = dict(input_masks=input_masks, input_null_values=input_null_values, block_info=block_info, block_id=block_id,
              out_null_value=out_null_value)
    return _finish(args, kw, extra, spec)


def _f_geo(*args, input_masks, input_null_values, block_info, block_id, out_null_value, geo_block_info, extra, spec):
    kw = dict(input_masks=input_masks, input_null_values=input_null_values, block_info=block_info, block_id=block_id,
              out_null_value=out_null_value, geo_block_info=geo_block_info)
    return _finish(args, kw, extra, spec)


def _f_masks(*args, input_masks, block_info, extra, spec):
    return _finish(args, dict(input_masks=input_masks, block_info=block_info), extra, spec)


def _f_info(*args, block_info, extra, spec):
    return _finish(args, dict(block_info=block_info), extra, spec)


def _f_infonv(*args, block_info, out_null_value, block_id, extra, spec):
    return _finish(args, dict(block_info=block_info, out_null_value=out_null_value, block_id=block_id), extra, spec)


def _f_geoonly(*args, geo_block_info, block_info, extra, spec):
    return _finish(args, dict(block_info=block_info, geo_block_info=geo_block_info), extra, spec)


def _f_absorb(*args, extra, spec, **kw):
    # names only an absorber: nothing may be injected. Calls cannot be located; counted only.
    if kw:
        with LOCK:
            LOG.append(dict(error=f"injected {sorted(kw)}"))
    d = [_plain(a) for a in args]
    if d[0].size:
        with LOCK:
            LOG.append(dict(data=d, anonymous=True))
    return _value(d, extra, spec)


def _value(d, extra, spec):
    out_dtype, out_bands, ret_mask, depth = spec
    if depth is None:
        out = combine(d, extra, out_dtype, out_bands)
    else:
        s = sum((i + 1) * neighbours(a, *depth) for i, a in enumerate(d))
        s = np.mod(s + extra, 97)
        out = np.mod(s, 2) > 0 if np.dtype(out_dtype).kind == "b" else s.astype(out_dtype)
    if ret_mask:
        return out, result_mask(d, out_bands)
    return out


def _finish(args, kw, extra, spec):
    rec = _record(args, kw)
    out = _value(rec["data"], extra, spec)
    if isinstance(args[0], xr.DataArray) and spec[1] is None and extra % 2 and not spec[2]:
        return args[0].copy(data=out)
    return out


GEO = {"geo_map_blocks", "geo_map_overlap"}
ALLFUNCS = [_f_all, _f_masks, _f_info, _f_infonv, _f_absorb]
GEOFUNCS = [_f_geo, _f_geoonly, _f_all, _f_masks, _f_absorb]


def rasters_for(ctx, n, min_side=1, max_side=11):
    m0 = model(ctx, dtypes=DT, min_side=min_side, max_side=max_side, max_bands=3, kind=ctx.choice(["small", "cat", "ramp"]))
    ms = [m0]
    for _ in range(n - 1):
        ms.append(model(ctx, dtypes=DT, shape=m0.shape, grid=(m0.x, m0.y), crs=m0.crs, kind=ctx.choice(["small", "cat", "ramp"])))
    return ms, [build(ctx, m) for m in ms]


def out_null(null_value, rs, ms, out_dtype):
    if null_value is not None:
        return null_value
    if len(rs) == 1 and ms[0].dtype == out_dtype:
        return ms[0].nv
    return get_default_null_value(np.dtype(out_dtype))


def pick_out(ctx, ms):
    out_dtype = np.dtype(ctx.choice([ms[0].dtype, ms[0].dtype, "uint8", "int16", "float32", "float64", "int64", "bool"]))
    nvp = None
    if ctx.chance(0.4):
        nvp = {"b": True}.get(out_dtype.kind, ctx.choice([7, 3, 96, 100, 0]))
        if out_dtype.kind == "f" and ctx.chance(0.4):
            nvp = np.nan
    return out_dtype, nvp


def wrap_affine(m):
    rx, ry = m.x[1] - m.x[0], m.y[1] - m.y[0]
    return (rx, 0, m.x[0] - rx / 2, 0, ry, m.y[0] - ry / 2)


def judge(ctx, rs, ms, res, fn, func, spec, extra, out_dtype, nvp, pad=None, band_single=False, what=""):
    """Run, then check the log and the result. pad: (padded data, padded mask) lists and depth pairs."""
    out_bands, ret_mask = spec[1], spec[2]
    LOG.clear()
    o = Obs(res)
    log = list(LOG)
    LOG.clear()
    nb, ny, nx = ms[0].shape
    ctx.count("mapped_calls", len(log))
    errs = [r["error"] for r in log if "error" in r]
    ctx.check(not errs, "injected", "an argument was passed that the function does not name", got=errs[:1])
    anon = func is _f_absorb
    outs = []
    if not anon:
        seen = {}
        for r in log:
            seen.setdefault(r["loc"], []).append(r)
        ctx.check(all(len(v) == 1 for v in seen.values()), "exactly_once", "a block was computed more than once",
                  got={k: len(v) for k, v in seen.items() if len(v) > 1})
        cover = np.zeros(((out_bands or nb), ny, nx), int)
        for r in log:
            sl = tuple(slice(a, b) for a, b in r["array_loc"])
            if pad is None:
                cover[sl] += 1
                rows, cols = sl[1], sl[2]
                bands = slice(0, nb) if out_bands is not None else sl[0]
                dataw = [m.data[bands, rows, cols] for m in ms]
                maskw = [m.mask[bands, rows, cols] for m in ms]
                r0, c0 = rows.start, cols.start
                b0 = bands.start
            else:
                dataw, maskw, (r0, c0), b0, own = pad(r)
                cover[own] += 1
            ctx.check(len(r["data"]) == len(ms), "args:count", got=len(r["data"]))
            for k, (g, w) in enumerate(zip(r["data"], dataw)):
                ctx.check(g.dtype == ms[k].dtype, "args:dtype", got=g.dtype, want=ms[k].dtype)
                ctx.check(g.shape == w.shape, "args:shape", "a block has the wrong shape", loc=r["loc"], got=g.shape, want=w.shape)
                ctx.check(np.array_equal(g, w, equal_nan=g.dtype.kind == "f"), "args:data", "the block holds the wrong cells",
                          arg=k, loc=r["loc"], got=g, want=w)
                ctx.count("block_args_checked")
            if "masks" in r:
                ctx.check(len(r["masks"]) == len(ms), "args:masks_count")
                for k, (g, w) in enumerate(zip(r["masks"], maskw)):
                    ctx.check(g.dtype == bool and g.shape == w.shape and np.array_equal(g, w), "args:masks",
                              "the mask block is not the block's mask", arg=k, loc=r["loc"], got=g.astype(int), want=w.astype(int))
                    ctx.count("mask_args_checked")
            if "input_null_values" in r:
                ctx.check(len(r["input_null_values"]) == len(ms) and all(
                    same_value(a, m.nv) for a, m in zip(r["input_null_values"], ms)), "args:null_values", got=r["input_null_values"])
            if "block_id" in r:
                ctx.check(tuple(r["block_id"]) == r["loc"], "args:block_id", got=r["block_id"], want=r["loc"])
            if "out_null_value" in r:
                ctx.check(same_value(r["out_null_value"], out_null(nvp, rs, ms, out_dtype)), "args:out_null_value",
                          got=r["out_null_value"], want=out_null(nvp, rs, ms, out_dtype))
                ctx.count("out_null_args_checked")
            if fn in GEO:
                check_geo(ctx, r, ms, r0, c0, b0)
        ctx.check(bool((cover == 1).all()), "cover", "the calls do not cover every cell exactly once", got=cover)
        ctx.count("blocks_logged", len(log))
        ctx.interesting(len(log) > 1)
        ctx.note("blocks", len(log))
    check_wellformed(ctx, o, burned=ret_mask)
    check_grid(ctx, o, ms[0])
    ctx.check(o.data.dtype == out_dtype, "out:dtype", got=o.data.dtype, want=out_dtype)
    onv = out_null(nvp, rs, ms, out_dtype)
    ctx.check(same_value(o.null, onv), "out:null_value", got=o.null, want=onv)
    return o, onv


def check_geo(ctx, r, ms, r0, c0, b0):
    m = ms[0]
    rx, ry = m.x[1] - m.x[0], m.y[1] - m.y[0]
    nb, ny, nx = r["data"][0].shape
    ex = m.x[0] + rx * (c0 + np.arange(nx))
    ey = m.y[0] + ry * (r0 + np.arange(ny))
    eb = b0 + np.arange(nb)
    tol = 1e-6 * max(1, abs(rx), abs(ry))
    ctx.check(all(t == "DataArray" for t in r["types"]), "geo:type", got=r["types"])
    for k, c in enumerate(r["coords"] + r.get("mask_coords", [])):
        ctx.check(c["x"].shape == ex.shape and np.allclose(c["x"], ex, rtol=0, atol=tol)
                  and c["y"].shape == ey.shape and np.allclose(c["y"], ey, rtol=0, atol=tol), "geo:coords",
                  "the block's coordinates are not those of its cells", loc=r["loc"], got=(c["y"], c["x"]), want=(ey, ex))
        ctx.check(np.array_equal(c["band"], eb), "geo:band", got=c["band"], want=eb)
        ctx.count("geo_coords_checked")
    ctx.check(all(crs_same(c, m.crs) for c in r["crs"]), "geo:crs", got=r["crs"], want=m.crs)
    ctx.check(all(same_value(a, mm.nv) for a, mm in zip(r["nodata"], ms)), "geo:nodata", got=r["nodata"])
    g = r.get("gbi")
    if g is None:
        return
    aff = (rx, 0, m.x[0] - rx / 2 + rx * c0, 0, ry, m.y[0] - ry / 2 + ry * r0)
    ctx.check(g["shape"] == (nb, ny, nx), "gbi:shape", got=g["shape"], want=(nb, ny, nx))
    ctx.check(np.allclose(g["affine"], aff, rtol=1e-9, atol=tol), "gbi:affine", "the block's affine is not that of its cells",
              loc=r["loc"], got=g["affine"], want=aff)
    ctx.check(crs_same(g["crs"], m.crs), "gbi:crs", got=g["crs"])
    ctx.check(g["row"] == (r0, r0 + ny) and g["col"] == (c0, c0 + nx), "gbi:slices", got=(g["row"], g["col"]),
              want=((r0, r0 + ny), (c0, c0 + nx)))
    ctx.check(g["band"] == (b0, b0 + nb) and np.array_equal(g["gband"], eb), "gbi:band", got=g["band"])
    ctx.check(g["loc"] == r["loc"], "gbi:chunk_location", got=g["loc"], want=r["loc"])
    ctx.check(g["parent_shape"] == m.shape and np.allclose(g["parent_affine"], wrap_affine(m), atol=tol), "gbi:parent",
              got=(g["parent_shape"], g["parent_affine"]))
    w = (min(aff[2], aff[2] + rx * nx), min(aff[5], aff[5] + ry * ny), max(aff[2], aff[2] + rx * nx), max(aff[5], aff[5] + ry * ny))
    ctx.check(np.allclose(g["bounds"], w, atol=tol), "gbi:bbox", got=g["bounds"], want=w)
    ctx.check(np.allclose(g["x"], ex, rtol=0, atol=tol) and np.allclose(g["y"], ey, rtol=0, atol=tol), "gbi:coords")
    ctx.count("geo_infos_checked")


def hints(ctx, func, out_dtype, ret_mask, out_bands):
    kw = {}
    h = ctx.choice(["dtype", "meta", "both"]) if True else None
    if h in ("dtype", "both"):
        kw["dtype"] = ctx.choice([out_dtype, str(out_dtype)])
    if h in ("meta", "both"):
        kw["meta"] = np.array((), dtype=out_dtype)
    if out_bands is None and ctx.chance(0.3) and func is not _f_infonv:
        kw = {}  # inferred from the function
    return kw


def expected(ctx, ms, o, onv, full, mask):
    """Result oracle: data as returned, mask from the null value or as returned."""
    if mask is None:
        if onv is None:
            wm = np.zeros(full.shape, bool)
        else:
            wm = np.isnan(full) if same_value(onv, np.nan) else full == onv
    else:
        # without a null value there is nothing that can be null
        wm = mask if onv is not None else None
    if wm is None:
        return
    check_cells(ctx, o, full, wm, key="out")
    ctx.interesting(wm.any())


def f_blocks(ctx):
    fn = ctx.enum(["map_blocks", "geo_map_blocks"])
    n = ctx.choice([1, 1, 2, 3])
    ms, rs = rasters_for(ctx, n, min_side=2 if fn in GEO else 2)
    out_dtype, nvp = pick_out(ctx, ms)
    ret_mask = ctx.chance(0.35)
    out_bands = ctx.choice([1, 2, 3, 5]) if ctx.chance(0.35) else None
    func = ctx.choice(GEOFUNCS if fn in GEO else ALLFUNCS)
    extra = ctx.int(0, 5)
    spec = (str(out_dtype), out_bands, ret_mask, None)
    kw = hints(ctx, func, out_dtype, ret_mask, out_bands)
    cs = ctx.choice(["128MiB", "64B", "200B", "1kiB"])
    ctx.note(fn, func.__name__, spec, nvp, cs)
    ctx.describe(fn=fn, func=func.__name__, spec=spec, nvp=nvp, hints=kw, cs=cs)
    if ret_mask and out_null(nvp, rs, ms, out_dtype) is None:
        raise Skip
    META.clear()
    with dask.config.set({"array.chunk-size": cs}):
        if ctx.chance(0.5):
            res = getattr(rs[0], fn)(func, *rs[1:], null_value=nvp, out_bands=out_bands, return_mask=ret_mask, extra=extra, spec=spec, **kw)
        else:
            res = getattr(rts, fn)(func, *rs, null_value=nvp, out_bands=out_bands, return_mask=ret_mask, extra=extra, spec=spec, **kw)
        ctx.check(not LOG or not any("loc" in r for r in LOG), "eager", "the function was called on data before computing")
        LOG.clear()
        o, onv = judge(ctx, rs, ms, res, fn, func, spec, extra, out_dtype, nvp)
    full = combine([m.data for m in ms], extra, out_dtype, out_bands)
    mask = result_mask([m.data for m in ms], out_bands) if ret_mask else None
    expected(ctx, ms, o, onv, full, mask)
    ctx.check(o.chunks[1:] == rs[0].data.chunks[1:], "out:chunks", "the result does not have the first input's chunks",
              got=o.chunks, want=rs[0].data.chunks)
    ctx.interesting(n > 1)
    for m, r in zip(ms, rs):  # inputs are left alone
        oo = Obs(r)
        ctx.check(np.array_equal(oo.data, m.data, equal_nan=m.dtype.kind == "f") and np.array_equal(oo.mask, m.mask), "input_changed")


def padded(a, dy, dx, b, fill):
    w = ((0, 0), dy, dx)
    if b is None:
        return np.array(a)
    if b == "fill":
        return np.pad(a, w, constant_values=fill)
    return np.pad(a, w, mode={"reflect": "symmetric", "periodic": "wrap", "nearest": "edge"}[b])


def f_overlap(ctx):
    fn = ctx.enum(["map_overlap", "geo_map_overlap"])
    n = ctx.choice([1, 1, 2, 3])
    ms, rs = rasters_for(ctx, n, min_side=4, max_side=12)
    nb, ny, nx = ms[0].shape
    out_dtype, nvp = pick_out(ctx, ms)
    ret_mask = ctx.chance(0.35)
    func = ctx.choice(GEOFUNCS if fn in GEO else ALLFUNCS)
    extra = ctx.int(0, 5)
    b = ctx.choice([None, "none", "NONE", "null", "NoData", "null_value", "scalar", "scalar_null", "reflect", "Periodic", "nearest"])
    no_b = b is None or b.lower() == "none"
    style = ctx.choice(["int", "pair", "dict"] + (["asym"] * 2 if no_b else []))
    if style == "int":
        d = ctx.int(0, 3)
        depth, dy, dx = d, (d, d), (d, d)
    elif style == "pair":
        p, q = ctx.int(0, 3), ctx.int(0, 3)
        depth, dy, dx = (p, q), (p, p), (q, q)
    elif style == "dict":
        p, q = ctx.int(0, 3), ctx.int(0, 3)
        depth, dy, dx = ctx.choice([({1: p, 2: q}, (p, p), (q, q)), ({2: q}, (0, 0), (q, q)), ({0: 0, 1: p}, (p, p), (0, 0))])
    else:
        dy, dx = (ctx.int(0, 3), ctx.int(0, 3)), (ctx.int(0, 3), ctx.int(0, 3))
        depth = ctx.choice([{1: dy, 2: dx}, (dy, dx)])
    spec = (str(out_dtype), None, ret_mask, (dy, dx))
    kw = hints(ctx, func, out_dtype, ret_mask, None)
    fills = [None] * n
    if no_b:
        kind, arg = None, b
        mkind = None
    elif b.lower() in ("null", "nodata", "null_value"):
        kind, arg = "fill", b
        fills = [m.nv if m.nv is not None else get_default_null_value(m.dtype) for m in ms]
        mfill = [True] * n
    elif b.startswith("scalar"):
        kind = "fill"
        arg = 1 if b == "scalar" else (ms[0].nv if ms[0].nv is not None else 1)
        if any(m.dtype.kind != "f" for m in ms) and (same_value(arg, np.nan) or not all(
                m.dtype.kind == "f" or m.dtype.kind == "b" or (np.iinfo(m.dtype).min <= arg <= np.iinfo(m.dtype).max) for m in ms)):
            arg = 1
        fills = [arg] * n
        mfill = [m.nv is not None and same_value(m.nv, arg) for m in ms]
    else:
        kind, arg = b.lower(), b
        mfill = [None] * n
    if arg is not None and kind == "fill" and any(m.dtype.itemsize == 2 and m.dtype.kind == "f" for m in ms) and abs(fills[0] or 0) > 60000:
        raise Skip
    if ret_mask and out_null(nvp, rs, ms, out_dtype) is None:
        raise Skip
    ctx.note(fn, func.__name__, spec, str(nvp), b, depth)
    ctx.describe(fn=fn, func=func.__name__, spec=spec, nvp=nvp, hints=kw, boundary=arg, depth=depth)
    LOG.clear()
    kw.update(depth=depth, null_value=nvp, return_mask=ret_mask, extra=extra, spec=spec)
    if b is not None or ctx.chance(0.5):
        kw["boundary"] = arg
    if ctx.chance(0.5):
        res = getattr(rs[0], fn)(func, *rs[1:], **kw)
    else:
        res = getattr(rts, fn)(func, *rs, **kw)
    pd = [padded(m.data, dy, dx, kind, m.dtype.type(f) if kind == "fill" else None) for m, f in zip(ms, fills)]
    pm = [padded(m.mask, dy, dx, kind, f if kind == "fill" else None) for m, f in zip(ms, mfill if kind else fills)]

    # the cells a block owns: array-location without the overlap. The log gives locations in the overlapped
    # array, so the owner is derived from the block's index and the chunks dask uses.
    ys = np.concatenate([[0], np.cumsum(_eff_chunks(rs[0].data.chunks[1], max(dy)))])
    xs = np.concatenate([[0], np.cumsum(_eff_chunks(rs[0].data.chunks[2], max(dx)))])

    def window(r):
        bi, yi, xi = r["loc"]
        own = (slice(bi, bi + 1), slice(ys[yi], ys[yi + 1]), slice(xs[xi], xs[xi + 1]))
        if kind is None:
            r0, r1 = max(0, ys[yi] - dy[0]), min(ny, ys[yi + 1] + dy[1])
            c0, c1 = max(0, xs[xi] - dx[0]), min(nx, xs[xi + 1] + dx[1])
            sl = (own[0], slice(r0, r1), slice(c0, c1))
        else:
            r0, c0 = ys[yi] - dy[0], xs[xi] - dx[0]
            sl = (own[0], slice(ys[yi], ys[yi + 1] + sum(dy)), slice(xs[xi], xs[xi + 1] + sum(dx)))
        return [p[sl] for p in pd], [p[sl] for p in pm], (int(r0), int(c0)), bi, own

    o, onv = judge(ctx, rs, ms, res, fn, func, spec, extra, out_dtype, nvp, pad=window)
    # result: the function over the whole padded array, trimmed
    whole = _value(pd, extra, spec)
    full, mask = whole if ret_mask else (whole, None)
    if kind is not None:
        t = (slice(None), slice(dy[0], dy[0] + ny), slice(dx[0], dx[0] + nx))
        full = full[t]
        mask = None if mask is None else mask[t]
    expected(ctx, ms, o, onv, full, mask)
    ctx.interesting(n > 1)
    ctx.count("depth_positive", max(dy + dx) > 0)
    ctx.count("asymmetric", dy[0] != dy[1] or dx[0] != dx[1])


def _eff_chunks(chunks, depth):
    """Chunks dask grows so that each is at least as deep as the overlap."""
    from dask.array.overlap import ensure_minimum_chunksize

    return chunks if depth == 0 else ensure_minimum_chunksize(depth, chunks)


def f_gbi(ctx):
    """GeoBlockInfo: the blocks tile the raster; growing, trimming and shifting keep cells where they are."""
    m = model(ctx, min_side=2, max_side=11)
    r = build(ctx, m)
    infos = blocks.geo_block_infos(r)
    if ctx.chance(0.3):
        infos = blocks.geo_block_infos_as_dask(r).compute()
    ctx.check(infos.shape == r.data.numblocks, "gbi:numblocks", got=infos.shape, want=r.data.numblocks)
    cover = np.zeros(m.shape, int)
    rx, ry = m.x[1] - m.x[0], m.y[1] - m.y[0]
    for loc in np.ndindex(infos.shape):
        g = infos[loc]
        cover[g.band_slice, g.row_slice, g.col_slice] += 1
        blk = r.data.blocks[loc]
        ctx.check(g.shape == blk.shape, "gbi:shape", got=g.shape, want=blk.shape)
        ctx.check(np.array_equal(np.asarray(blk), m.data[g.band_slice, g.row_slice, g.col_slice], equal_nan=m.dtype.kind == "f"), "gbi:cells")
        rows, cols = np.arange(m.shape[1])[g.row_slice], np.arange(m.shape[2])[g.col_slice]
        ops = []
        t, l = rows[0], cols[0]
        nyb, nxb = len(rows), len(cols)
        for _ in range(ctx.int(0, 4)):
            op = ctx.choice(["pad_y", "pad_x", "pad1", "pad2", "shift_y", "shift_x", "shift1", "shift2", "trim"])
            a, b = ctx.int(0, 3), ctx.int(0, 3)
            if op == "pad_y":
                g = g.pad_y(a, b); t -= a; nyb += a + b
            elif op == "pad_x":
                g = g.pad_x(a, b); l -= a; nxb += a + b
            elif op == "pad1":
                g = g.pad(a); t -= a; l -= a; nyb += 2 * a; nxb += 2 * a
            elif op == "pad2":
                g = g.pad(a, b); t -= a; l -= b; nyb += 2 * a; nxb += 2 * b
            elif op == "shift_y":
                g = g.shift_y(a - 2); t += a - 2
            elif op == "shift_x":
                g = g.shift_x(a - 2); l += a - 2
            elif op == "shift1":
                g = g.shift(a); t += a; l += a
            elif op == "shift2":
                g = g.shift(a, -b); t += a; l -= b
            elif nyb > 2 and nxb > 2:
                g = g.pad_y(-1, 0).pad_x(0, -1); t += 1; nyb -= 1; nxb -= 1
            ops.append(op)
            ctx.count("mutations")
        ctx.describe(ops=ops)
        ctx.check(g.shape == (blk.shape[0], nyb, nxb), "mut:shape", got=g.shape, want=(nyb, nxb))
        ctx.check((g.row_slice.start, g.row_slice.stop) == (t, t + nyb) and (g.col_slice.start, g.col_slice.stop) == (l, l + nxb),
                  "mut:slices", got=(g.row_slice, g.col_slice), want=(t, nyb, l, nxb))
        tol = 1e-6 * max(1, rx, -ry)
        ctx.check(np.allclose(g.x, m.x[0] + rx * (l + np.arange(nxb)), rtol=0, atol=tol)
                  and np.allclose(g.y, m.y[0] + ry * (t + np.arange(nyb)), rtol=0, atol=tol), "mut:coords",
                  got=(g.y, g.x), want=(m.y[0] + ry * t, m.x[0] + rx * l))
        ctx.check(g.chunk_location == loc and tuple(g.parent_shape) == m.shape, "mut:parent")
        if ctx.chance(0.5):
            d = rand_data(ctx, m.dtype, g.shape)
            k = ctx.rng.random(g.shape) < 0.3
            xd, xm = g.to_dataarray(d, mask=k, nodata=m.nv)
            ctx.check(np.array_equal(xd.data, d, equal_nan=d.dtype.kind == "f") and np.array_equal(xm.data, k), "to_dataarray:cells")
            ctx.check(np.array_equal(xd.x, g.x) and np.array_equal(xd.y, g.y) and same_value(xd.rio.nodata, m.nv) and crs_same(xd.rio.crs, m.crs), "to_dataarray:meta")
            expect_raises(ctx, "to_dataarray:shape", lambda: g.to_dataarray(d[:, :, :-1] if d.shape[2] > 0 else d), ValueError)
    ctx.check(bool((cover == 1).all()), "gbi:tile", "the blocks do not tile the raster", got=cover)
    ctx.interesting(infos.size > 1)
    expect_raises(ctx, "mut:negative", lambda: infos.flat[0].pad_y(-100, 0), ValueError)
    expect_raises(ctx, "mut:float", lambda: infos.flat[0].pad(1.5), TypeError)


def f_refuse(ctx):
    """Requests that cannot be honoured raise instead of returning something else."""
    ms, rs = rasters_for(ctx, 1, min_side=4)
    m, r = ms[0], rs[0]
    nb, ny, nx = m.shape
    other = model(ctx, shape=(nb, ny, nx + 1) if ctx.chance(0.5) else (nb, ny + 1, nx))
    moved = build(ctx, model(ctx, shape=m.shape, grid=(m.x + 3 * (m.x[1] - m.x[0]), m.y), crs=m.crs))
    o2 = build(ctx, other)
    fns = ["map_blocks", "map_overlap", "geo_map_blocks", "geo_map_overlap"]
    fn = ctx.enum(fns)
    f = getattr(rts, fn)
    kw = {"depth": 1} if "overlap" in fn else {}
    ident = lambda *a, **k: a[0]
    expect_raises(ctx, "refuse:shape", lambda: f(ident, r, o2, **kw), ValueError)
    expect_raises(ctx, "refuse:none", lambda: f(ident, **kw), ValueError)
    for name in ["input_masks", "input_null_values", "block_info", "block_id", "out_null_value"] + (["geo_block_info"] if fn in GEO else []):
        expect_raises(ctx, "refuse:reserved", lambda: f(ident, r, **{name: 1}, **kw), ValueError)
    for name in ["chunks", "name", "drop_axis", "new_axis", "trim", "token"]:
        expect_raises(ctx, "refuse:dask", lambda: f(ident, r, **{name: 1}, **kw), ValueError, TypeError)
    expect_raises(ctx, "refuse:null_string", lambda: f(ident, r, null_value="x", **kw), ValueError, TypeError)
    expect_raises(ctx, "refuse:dtype_meta", lambda: f(ident, r, dtype="int8", meta=np.array((), dtype="float64"), **kw), ValueError)
    if fn in GEO:
        expect_raises(ctx, "refuse:grid", lambda: f(ident, r, moved, **kw), ValueError)
    if "overlap" in fn:
        expect_raises(ctx, "refuse:asym", lambda: f(ident, r, depth={1: (1, 0), 2: 0}, boundary="reflect"), ValueError)
        expect_raises(ctx, "refuse:neg", lambda: f(ident, r, depth=-1), ValueError)
        expect_raises(ctx, "refuse:banddepth", lambda: f(ident, r, depth={0: 1}), ValueError)
        expect_raises(ctx, "refuse:boundary", lambda: f(ident, r, depth=1, boundary="bogus"), ValueError)
        expect_raises(ctx, "refuse:out_bands", lambda: f(ident, r, depth=1, out_bands=2), ValueError)
    else:
        expect_raises(ctx, "refuse:out_bands", lambda: f(ident, r, out_bands=ctx.choice([0, -1, 1.5, True])), ValueError)
        bad = lambda *a, **k: np.concatenate([np.asarray(a[0])] * (2 if a[0].size else 1))
        expect_raises(ctx, "refuse:bandcount", lambda: f(bad, r, out_bands=nb, dtype=m.dtype, meta=np.array((), m.dtype)).data.compute(), ValueError)
    nv = {} if m.nv is not None else {"null_value": True if m.dtype.kind == "b" else 1}
    badmask = lambda *a, **k: (np.asarray(a[0]), np.zeros((1, 1, 1), bool))
    if r.data.npartitions != r.data.size:
        expect_raises(ctx, "refuse:maskshape", lambda: f(badmask, r, return_mask=True, dtype=m.dtype, **nv, **kw).data.compute(), ValueError)
    nopair = lambda *a, **k: np.asarray(a[0])
    expect_raises(ctx, "refuse:pair", lambda: f(nopair, r, return_mask=True, dtype=m.dtype, **nv, **kw).data.compute(), ValueError)
    ctx.interesting()
    ctx.note(fn)


FAMILIES = {"blocks": (f_blocks, 320, 6000), "overlap": (f_overlap, 320, 6000), "gbi": (f_gbi, 80, 1500), "refuse": (f_refuse, 48, 400)}
REQUIRED = ["mapped_calls", "block_args_checked", "mask_args_checked", "geo_coords_checked", "geo_infos_checked", "mutations",
            "asymmetric", "out_null_args_checked"]
