"""C06: operations never modify their inputs."""
import copy
import operator
import os

import dask
import dask.array as da
import dask_geopandas as dgpd
import geopandas as gpd
import numpy as np
import pandas as pd
import raster_tools as rts
import xarray as xr
from raster_tools import clipping, creation, general, io, line_stats, rasterize, zonal
from raster_tools.raster import Raster

import gen
import ops
from core import Skip, expect_raises, sut

PROP = "C06"
RULE = ("ops: every catalogue operation on rasters held in numpy arrays, dask arrays, xarray objects, files or loaded rasters, called twice with the same argument objects and "
        "computed in between; everything the caller holds (source arrays, coordinates, attributes, rasters, mappings, lists, frames, option dictionaries) is fingerprinted before and "
        "compared after; history: random sequences of operations, in-place operators, loads and saves in which every raster ever made must still evaluate as at first; constructors, "
        "options, features: the same for making rasters, files and feature operations; non-trivial when the operation computed something from the inputs watched")
REQUIRED = ["inputs_watched", "second_calls", "inplace_steps", "history_rasters", "frames_watched", "kwargs_watched", "arrays_watched"]
DT = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "float32", "float64"]


# ------------------------------------------------------------ fingerprints

def freeze(x):
    """A deep, comparable picture of an argument object."""
    if isinstance(x, Raster):
        return ("raster", id(x._ds) and None, freeze_raster(x))
    if isinstance(x, xr.Dataset):
        return ("dataset", tuple(x.sizes.items()), freeze(dict(x.attrs)), tuple((k, freeze(v)) for k, v in x.variables.items()))
    if isinstance(x, xr.DataArray):
        return ("dataarray", x.name, x.dims, freeze(dict(x.attrs)), freeze(dict(x.encoding)), x.chunks, freeze(np.asarray(x.data)),
                tuple((k, freeze(v.variable)) for k, v in x.coords.items()))
    if isinstance(x, xr.Variable):
        return ("variable", x.dims, freeze(dict(x.attrs)), freeze(dict(x.encoding)), freeze(np.asarray(x.data)))
    if isinstance(x, dgpd.GeoDataFrame):
        sp = x.spatial_partitions
        return ("dask frame", x.divisions, None if sp is None else tuple(g.wkb for g in sp), freeze(x.compute()))
    if isinstance(x, rts.Vector):
        return ("vector", freeze(x.data))
    if isinstance(x, pd.DataFrame):
        return ("frame", tuple(x.columns), tuple(str(t) for t in x.dtypes), tuple(x.index), str(getattr(x, "crs", None)), freeze(dict(x.attrs)),
                tuple(tuple(g.wkb if g is not None else None for g in x[c]) if str(x[c].dtype) == "geometry" else tuple(map(repr, x[c])) for c in x.columns))
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.strides, bool(x.flags.writeable), x.tobytes() if x.dtype.kind != "O" else repr(x.tolist()))
    if isinstance(x, da.Array):
        return ("dask array", x.name, x.chunks, freeze(x.compute()))
    if isinstance(x, dict):
        return ("dict", tuple((repr(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    return (type(x).__name__, repr(x) if not callable(x) else id(x))


def freeze_raster(r):
    o = gen.Obs(r)
    return (o.dims, o.shape, str(o.meta_dtype), repr(o.null), str(o.crs), o.chunks, o.mask_chunks, freeze(o.data), freeze(o.mask), freeze(o.x), freeze(o.y), freeze(o.band), tuple(o.affine),
            freeze({k: v for k, v in r.xdata.attrs.items()}), tuple(sorted(map(str, r._ds.variables))), r.xdata.name, r._ds.raster.dims)


NAMES_R = ["dims", "shape", "dtype", "null value", "CRS", "chunks", "mask chunks", "data", "mask", "x", "y", "band", "affine", "attributes", "variables", "name", "dims"]


def compare(ctx, before, after, key, what):
    if before == after:
        ctx.count("oracle_checks")
        return
    part = ""
    if before[0] == "raster":
        part = [n for n, a, b in zip(NAMES_R, before[2], after[2]) if a != b]
    ctx.fail(key, f"{what} was modified {part}", before=shown(before), after=shown(after))


def shown(f):
    return repr(f)[:1500]


class Watch:
    """Everything a caller holds on to, and what it looked like."""

    def __init__(self, ctx):
        self.ctx, self.held = ctx, []

    def add(self, name, x):
        self.held.append((name, x, freeze(x)))
        self.ctx.count("inputs_watched")
        if isinstance(x, np.ndarray):
            self.ctx.count("arrays_watched")
        if isinstance(x, (pd.DataFrame, dgpd.GeoDataFrame, rts.Vector)):
            self.ctx.count("frames_watched")
        return x

    def verify(self, key, when):
        for name, x, f in self.held:
            compare(self.ctx, f, freeze(x), f"{key}:{name.split('#')[0]}", f"{name} ({when})")


# ------------------------------------------------------------ operations

def hold(ctx, m, w, k):
    """A raster of the model whose backing objects are watched."""
    how = ctx.choice(["dask", "numpy", "loaded", "xarray", "dask1", "file"] if m.dtype.kind != "b" and not m.unburned else ["dask", "dask1", "loaded"])
    if min(m.shape[1:]) < 2 and how in ("file", "xarray"):
        how = "dask"
    if how == "file" and (m.dtype == np.dtype("float16") or (m.nv is not None and m.dtype.name in ("int64", "uint64"))):
        how = "numpy"
    ctx.describe(**{f"held{k}": how})
    ctx.count("held:" + how)
    x, y = m.x.copy(), m.y.copy()
    if how == "numpy":
        arr = w.add(f"array#{k}", m.data.copy())
        r = rts.data_to_raster(arr, x=w.add(f"x#{k}", x), y=w.add(f"y#{k}", y), crs=m.crs, nv=m.nv)
        r = r if ctx.chance(0.5) else r.chunk((1, *ops.chunking(ctx, ops.OPS["copy"], m.shape)))
    elif how == "xarray":
        arr = w.add(f"array#{k}", m.data.copy())
        xd = xr.DataArray(arr if ctx.chance(0.5) else da.from_array(arr, chunks=(1, max(1, m.shape[1] // 2), m.shape[2])), dims=("band", "y", "x"), coords={"band": np.arange(m.shape[0]) + 1, "y": y, "x": x},
                          attrs={"note": "kept"})
        if m.crs:
            xd = xd.rio.write_crs(m.crs)
        if m.nv is not None:
            xd = xd.rio.write_nodata(m.nv)
        w.add(f"dataarray#{k}", xd)
        r = Raster(xd)
    elif how == "file":
        p = os.path.join(ctx.tmp, f"in{k}.tif")
        gen.build(ctx, m).save(p)
        r = Raster(p)
        w.add(f"filebytes#{k}", FileBytes(p))
    elif how == "dask1":
        arr = w.add(f"array#{k}", m.data.copy())
        mk = w.add(f"maskarray#{k}", m.mask.copy())
        ch = ((1,) * m.shape[0], (m.shape[1],), (m.shape[2],))
        r = rts.data_to_raster(da.from_array(arr, chunks=ch), mask=da.from_array(mk, chunks=ch) if m.nv is not None else None, x=x, y=y, crs=m.crs, nv=m.nv)
    else:
        arr = w.add(f"array#{k}", m.data.copy())
        chunks = ops.chunking(ctx, ops.OPS["regions"], m.shape)
        ch = ((1,) * m.shape[0], *chunks)
        mk = w.add(f"maskarray#{k}", m.mask.copy())
        r = rts.data_to_raster(da.from_array(arr, chunks=ch), mask=da.from_array(mk, chunks=ch) if m.nv is not None else None, x=x, y=y, crs=m.crs, nv=m.nv)
        if how == "loaded":
            r = r.load()
    return w.add(f"raster#{k}", r)


class FileBytes:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        import hashlib

        return hashlib.blake2b(open(self.path, "rb").read()).hexdigest() + str(sorted(f for f in os.listdir(os.path.dirname(self.path)) if f.startswith(os.path.basename(self.path))))


def f_ops(ctx):
    o = ops.OPS[ctx.enum(sorted(ops.OPS))]
    ms = ops.inputs(ctx, o)
    if ms is None:
        raise Skip("no input fits")
    ctx.describe(op=o.name, raster=ms[0].desc())
    w = Watch(ctx)
    with sut(ctx):
        rs = [hold(ctx, m, w, k) for k, m in enumerate(ms)]
        t = ops.Meta.of(rs[0])
        if not o.pre(t):
            raise Skip("the held form does not fit")
        args, call = o.f(ctx, t)
        ctx.describe(args=args)
        frozen_args = freeze(args)
        state = ctx.rng.bit_generator.state
        out = call(rs, args)
        w.verify(f"call:{o.name}", f"by calling {o.name}")
        compare(ctx, frozen_args, freeze(args), f"args:{o.name}", f"an argument of {o.name}")
        with dask.config.set(scheduler=ctx.choice(["sync", "threads"])):
            a = ops.Seen(out, o)
        w.verify(f"compute:{o.name}", f"by computing the result of {o.name}")
        compare(ctx, frozen_args, freeze(args), f"args_computed:{o.name}", f"an argument of {o.name} (computing)")
        # the arguments do the same again
        ctx.rng.bit_generator.state = state
        b = ops.Seen(call(rs, args), o)
        ctx.count("second_calls")
        # and the first result still is what it was
        c = ops.Seen(out, o)
    ctx.interesting()
    for x in ops.flatten(out):
        # get_raster() is documented to hand back the raster itself
        if isinstance(x, Raster) and o.name not in ("inplace", "copy", "null_to_nan"):
            ctx.check(all(x is not q and x._ds is not q._ds for q in rs), f"same_object:{o.name}", "the operation returned a raster it was given, not a new one")
    if o.name != "random":
        d = ops.diff(a, b, o.rtol)
        ctx.check(d is None, f"reuse:{o.name}", f"the second call with the same arguments differs: {d}")
        d = ops.diff(a, c, o.rtol)
        ctx.check(d is None, f"first_result:{o.name}", f"the first result changed: {d}")
    w.verify(f"after:{o.name}", f"after using {o.name} twice")


# ------------------------------------------------------------ histories

def f_history(ctx):
    m = gen.model(ctx, dtypes=DT, min_side=4, max_side=10, kind=ctx.choice(["small", "cat"]), crs="EPSG:5070")
    w = Watch(ctx)
    with sut(ctx):
        live = [("start", hold(ctx, m, w, 0))]
        pictures = {0: freeze_raster(live[0][1])}
        log = []
        for step in range(ctx.int(3, 8)):
            k = ctx.int(0, len(live) - 1)
            r = live[k][1]
            t = ops.Meta.of(r)
            if t.shape[1] * t.shape[2] * t.shape[0] > 3000 or t.shape[0] > 6 or min(t.shape[1:]) < 2:
                continue
            what = ctx.choice(["op", "op", "inplace", "save", "load", "copy", "assign"])
            new = []
            try:
                if what == "inplace" and t.dtype.kind in "iuf":
                    f, v = ctx.choice([(operator.iadd, 1), (operator.isub, 1), (operator.imul, 2), (operator.iadd, 1.5), (operator.ifloordiv, 2), (operator.itruediv, 2)])
                    arg = v if ctx.chance(0.6) else r if ctx.chance(0.3) else np.full(t.shape[1:], v)
                    bw = ctx.chance(0.2) and t.shape[0] > 1
                    log.append(f"r{k} {f.__name__} {type(arg).__name__}")
                    new = [f(r.bandwise, [v] * t.shape[0]) if bw else f(r, arg)]
                    if bw:
                        new = [x for x in new if isinstance(x, Raster)]
                    ctx.count("inplace_steps")
                    # only the raster itself may have changed
                    pictures[k] = freeze_raster(r)
                elif what == "save" and t.dtype.name not in ("bool", "float16"):
                    log.append(f"save r{k}")
                    new = [r.save(os.path.join(ctx.tmp, f"s{step}.tif"))]
                elif what == "load":
                    log.append(f"load r{k}")
                    new = [r.load()]
                elif what == "copy":
                    log.append(f"copy r{k}")
                    new = [ctx.choice([lambda: r.copy(), lambda: Raster(r), lambda: rts.get_raster(r), lambda: Raster(r.xdata), lambda: Raster(r.to_dataset()), lambda: copy.copy(r) if False else r.copy()])()]
                elif what == "assign":
                    log.append(f"bands/crs r{k}")
                    new = [r.set_crs("EPSG:3857").set_crs("EPSG:5070"), r.get_bands([1, 1])]
                else:
                    cand = [o for o in ops.OPS.values() if not o.frame and o.group != "scalar" and o.pre(t) and o.n == 1 and not o.max_blocks and o.name not in ("mosaic", "reproject")
                            and not (o.need.get("nulls") is False and t.nv is not None)]
                    o = ctx.choice(sorted(cand, key=lambda q: q.name))
                    args, call = o.f(ctx, t)
                    log.append(f"{o.name} r{k}")
                    new = [x for x in ops.flatten(call([r], args)) if isinstance(x, Raster)][:2]
            except Exception as e:  # noqa: BLE001
                ctx.count(f"refused:{what}:{type(e).__name__}")
                new = []
            for x in new:
                if any(x is q for _, q in live):
                    continue
                live.append((log[-1], x))
                if not random_in(live, len(live) - 1):
                    pictures[len(live) - 1] = freeze_raster(x)
            ctx.describe(history=log) if step == 0 else None
        ctx.desc = [d for d in ctx.desc if not d.startswith("history=")]
        ctx.describe(history=log)
        for i, (name, x) in enumerate(live):
            if i in pictures:
                ctx.count("history_rasters")
                compare(ctx, ("raster", None, pictures[i]), ("raster", None, freeze_raster(x)), "history", f"r{i} ({name})")
    # the in-place operators act on the raster they are applied to, and on nothing it was made from
    for name, x, f in w.held:
        if not name.startswith("raster"):
            compare(ctx, f, freeze(x), f"history:{name.split('#')[0]}", name)
    ctx.note(*log)
    ctx.interesting(len(live) > 2)


def random_in(live, i):
    return "random" in live[i][0]


def trivial(ctx, r, m):
    """Operations that have nothing to do: they still return a new raster."""
    c = {"chunk_same": lambda: r.chunk(r.data.chunks), "crs_same": lambda: r.set_crs(m.crs or "EPSG:3857"), "bands_all": lambda: r.get_bands(list(range(1, m.shape[0] + 1))),
         "band_concat1": lambda: rts.band_concat([r]), "null_same": lambda: r.set_null_value(r.null_value), "where_true": lambda: r.where(r == r, r), "load": lambda: r.load(),
         "remap_none": lambda: r.remap_range([(200, 201, 1)] if m.dtype.kind != "i" or m.dtype.itemsize > 1 else [(100, 101, 1)]), "astype_same": lambda: r.astype(r.dtype),
         "general_where": lambda: rts.general.where(r == r, r, r), "reclassify_none": lambda: r.reclassify({})}
    if min(m.shape[1:]) > 1 and m.crs is not None:
        # (stack_bands([r]) hands back r itself: an existing test requires it)
        c.update(mosaic1=lambda: rts.mosaic([r]), stack1=lambda: rts.stack_bands([r, r]), pad0=lambda: r.pad(r.geobox), pad_bounds=lambda: r.pad(r.bounds), reproject_same=lambda: r.reproject(r.geobox),
                 reproject_crs=lambda: r.reproject(r.crs), clip_all=lambda: rts.clipping.clip_box(r, r.bounds))
    out = {}
    for k, f in c.items():
        try:
            x = f()
        except Exception as e:  # noqa: BLE001
            ctx.count(f"refused:{k}:{type(e).__name__}")
            continue
        ctx.check(x is not r and x._ds is not r._ds, "same_object:" + k, f"{k} returned the raster it was given, not a new one")
        ctx.count("trivial_results")
        out[k] = x
    return out


def f_copies(ctx):
    """In-place operators never act on copies, on rasters derived earlier or on the source."""
    m = gen.model(ctx, dtypes=DT, max_side=8, kind="small")
    w = Watch(ctx)
    with sut(ctx):
        r = hold(ctx, m, w, 0)
        w.held = [h for h in w.held if not h[0].startswith("raster")]
        others = {"copy": r.copy(), "Raster": Raster(r), "plus": r + 1, "bands": r.get_bands(1), "dataset": Raster(r.to_dataset()), "crs": r.set_crs("EPSG:3857"),
                  "null": r.set_null_value(77), "mask": r.to_null_mask(), "where": r.where(r > 1, 0), "chunk": r.chunk((1, m.shape[1], m.shape[2])), "burn": r.burn_mask(),
                  "split": r.split_bands()[0], "astype": r.astype(r.dtype), "round": r.round(), "replace": r.replace_null(3)}
        if m.dtype.kind != "u":
            others["neg"] = -r
        others.update(trivial(ctx, r, m))
        for k, x in others.items():
            w.add("other_" + k, x)
        xd = w.add("xdata", r.xdata.copy())
        other = r.copy() if ctx.chance(0.3) else 2
        if isinstance(other, Raster):
            w.add("operand", other)
        if ctx.chance(0.7):
            before = gen.Obs(r)
            for _ in range(ctx.int(1, 3)):
                f = ctx.choice([operator.iadd, operator.isub, operator.imul])
                if ctx.chance(0.3):
                    {operator.iadd: np.add, operator.isub: np.subtract, operator.imul: np.multiply}[f](r, other, out=r)
                else:
                    r = f(r, other)
            ctx.count("inplace_steps")
            key = "inplace"
        else:
            # and the other way around: changing a copy leaves the raster
            before = gen.Obs(r)
            k = ctx.choice(sorted(others))
            c = others[k]
            w.held = [h for h in w.held if h[0] != "other_" + k]
            if c.dtype.kind == "b":
                raise Skip("boolean")
            w.add("original", r)
            c += 1
            ctx.count("inplace_steps")
            ctx.describe(changed=k)
            key = "inplace_on_" + k
    w.verify(key, "by an in-place operator on another raster")
    ctx.interesting()
    ctx.note(key, m.data)


# ------------------------------------------------------------ constructors

def f_constructors(ctx):
    m = gen.model(ctx, dtypes=DT, min_side=2, max_side=8, unburned=ctx.chance(0.5))
    w = Watch(ctx)
    arr = w.add("array", m.data.copy())
    mask = w.add("mask", m.mask.copy())
    x, y = w.add("x", m.x.copy()), w.add("y", m.y.copy())
    kind = ctx.enum(["data_to_raster", "xr", "xr_ds", "like", "xr_like", "ds_like", "numpy", "dask", "dataarray", "dataset", "da_raster", "da_xr", "da_ds", "flipped", "renamed", "2d"])
    ctx.describe(kind=kind, raster=m.desc())
    like = w.add("like", gen.build(ctx, m))
    d = da.from_array(arr, chunks=(1, max(1, m.shape[1] // 2), m.shape[2])) if ctx.chance(0.5) else arr
    dm = da.from_array(mask, chunks=(1, max(1, m.shape[1] // 2), m.shape[2])) if isinstance(d, da.Array) else mask
    mk = dm if m.nv is not None else None
    xd = xr.DataArray(d, dims=("band", "y", "x"), coords={"band": np.arange(m.shape[0]) + 1, "y": m.y.copy(), "x": m.x.copy()}, attrs={"note": "kept"}, name="layer")
    xd.encoding["note"] = "kept"
    if m.crs:
        xd = xd.rio.write_crs(m.crs)
    if m.nv is not None and ctx.chance(0.7):
        xd = xd.rio.write_nodata(m.nv)
    if kind == "flipped":
        xd = xd.isel(y=slice(None, None, -1)) if ctx.chance(0.5) else xd.isel(x=slice(None, None, -1))
    if kind == "renamed":
        xd = xd.rename({"x": "lon", "y": "lat"})
    if kind == "2d":
        xd = xd.isel(band=0)
    w.add("dataarray", xd)
    xm = xr.DataArray(dm, dims=("band", "y", "x"), coords={"band": np.arange(m.shape[0]) + 1, "y": m.y.copy(), "x": m.x.copy()})
    w.add("xmask", xm)
    ds = w.add("dataset", xr.Dataset({"raster": xd, "mask": xm}) if kind == "dataset" else xr.Dataset())
    kw = dict(x=x, y=y, crs=m.crs, nv=m.nv)
    with sut(ctx):
        def make():
            if kind == "data_to_raster":
                return rts.data_to_raster(d, mask=mk, **kw)
            if kind == "xr":
                return rts.data_to_xr_raster(d, **kw)
            if kind == "xr_ds":
                return rts.data_to_xr_raster_ds(d, mask=mk, **kw)
            if kind == "like":
                return rts.data_to_raster_like(d, like, mask=mk, nv=m.nv)
            if kind == "xr_like":
                return rts.data_to_xr_raster_like(d, like.xdata, nv=m.nv)
            if kind == "ds_like":
                return rts.data_to_xr_raster_ds_like(d, like.xdata, mask=mk, nv=m.nv)
            if kind in ("numpy", "dask"):
                return Raster(d)
            if kind in ("dataarray", "flipped", "renamed", "2d"):
                return Raster(xd)
            if kind == "dataset":
                return Raster(ds)
            if kind == "da_raster":
                return rts.dataarray_to_raster(xd, xmask=xm if m.nv is not None else None, crs=m.crs)
            if kind == "da_xr":
                return rts.dataarray_to_xr_raster(xd)
            return rts.dataarray_to_xr_raster_ds(xd, xmask=xm if m.nv is not None else None, crs=m.crs)

        out = make()
        w.verify(f"make:{kind}", f"by making a raster with {kind}")
        first = freeze(out)
        w.verify(f"compute:{kind}", "by computing the raster")
        ctx.count("second_calls")
        compare(ctx, first, freeze(make()), f"reuse:{kind}", "the effect of the arguments, used again,")
        # working on the raster in place does not reach what it was made from
        if isinstance(out, Raster) and out.dtype.kind in "iuf":
            out += 1
            freeze(out)
            b = out.set_null_value(5).burn_mask()
            freeze(b)
            ctx.count("inplace_steps")
            w.verify(f"inplace:{kind}", "by working in place on the raster made from it")
    ctx.interesting()


# ------------------------------------------------------------ option dictionaries

def f_options(ctx):
    kind = ctx.enum(["open_dataset", "save", "save_chunks", "rasterize", "reproject", "blocks", "mosaic", "to_raster", "vector_save"])
    m = gen.model(ctx, dtypes=["uint8", "int16", "int32", "float32"], min_side=4, max_side=12, crs="EPSG:5070")
    ctx.describe(kind=kind)
    w = Watch(ctx)
    with sut(ctx):
        r = hold(ctx, m, w, 0)
        if kind == "open_dataset":
            p = os.path.join(ctx.tmp, "d.nc")
            xr.Dataset({"a": (("y", "x"), m.data[0].astype("f4")), "b": (("y", "x"), m.data[0].astype("f4") * 2)}, coords={"y": m.y, "x": m.x}).to_netcdf(p, engine="scipy")
            kw = w.add("xarray_kwargs", ctx.choice([{}, {"engine": "scipy"}, {"engine": "scipy", "decode_coords": True}, {"engine": "scipy", "decode_times": False, "drop_variables": ["b"]}]))

            def go(kw):
                return [v for _, v in sorted(rts.open_dataset(p, crs="EPSG:5070", xarray_kwargs=kw).items())]
            try:
                go({"engine": "scipy"})
            except ImportError:
                raise Skip("no netCDF backend") from None
        elif kind == "save":
            kw = w.add("kwargs", {"compress": "deflate", "blocksize": (16, 32), "overviews": [2], "null_value": 99})

            def go(kw):
                return r.save(os.path.join(ctx.tmp, f"o{ctx.rng.integers(1 << 40)}.tif"), **kw)
        elif kind == "save_chunks":
            kw = w.add("kwargs", {"compress": "lzw", "null_value": 99, "driver": "GTiff"})

            def go(kw):
                return list(r.save_chunks(os.path.join(ctx.tmp, f"o{ctx.rng.integers(1 << 40)}"), **kw).ravel())
        elif kind in ("rasterize", "to_raster"):
            g = w.add("features", ops.shapes(ctx, ops.Meta.of(r)))
            kw = w.add("kwargs", {"field": "v", "overlap_resolve_method": "first", "null_value": -1, "all_touched": True})

            def go(kw):
                return rts.Vector(g).to_raster(r, **kw) if kind == "to_raster" else rasterize.rasterize(g, r, **kw)
        elif kind == "reproject":
            kw = w.add("kwargs", {"crs_or_geobox": r.geobox, "resample_method": "nearest"})

            def go(kw):
                return r.reproject(**kw)
        elif kind == "mosaic":
            kw = w.add("kwargs", {"rasters": [r, r + 1, r.get_bands(1) if m.shape[0] == 1 else r]})

            def go(kw):
                return rts.mosaic(**kw)
        elif kind == "vector_save":
            g = w.add("features", ops.shapes(ctx, ops.Meta.of(r)))
            kw = w.add("kwargs", {"driver": "GPKG"})

            def go(kw):
                p = os.path.join(ctx.tmp, f"o{ctx.rng.integers(1 << 40)}.gpkg")
                rts.Vector(g).save(p, **kw)
                return gpd.read_file(p)
        else:
            kw = w.add("kwargs", {"depth": {"y": 1, "x": 1} if False else 1, "boundary": "nearest", "dtype": "f8", "null_value": -1.0, "c": [1, 2]})

            def go(kw):
                def f(x, c):
                    x += 1
                    return x.astype("f8") * c[0]
                return rts.map_overlap(f, r, **kw)
        frozen = freeze(copy.deepcopy(kw) if kind not in ("mosaic", "reproject") else kw)
        a = ops.Seen(go(kw), None)
        w.verify(f"options:{kind}", f"by {kind}")
        compare(ctx, frozen, freeze(kw), f"options_kwargs:{kind}", "the options")
        b = ops.Seen(go(kw), None)
        ctx.count("second_calls")
        ctx.count("kwargs_watched")
        if kind != "blocks":
            d = ops.diff(a, b, 0)
            ctx.check(d is None, f"options_reuse:{kind}", f"used again the options have another effect: {d}")
        w.verify(f"options_after:{kind}", f"by {kind}")
    ctx.interesting()
    ctx.note(kind, m.data)


# ------------------------------------------------------------ features

def f_features(ctx):
    m = gen.model(ctx, dtypes=["int32", "float32", "uint8"], min_side=4, max_side=10, crs="EPSG:5070", square=True, max_bands=2)
    t = ops.Meta.model(m)
    w = Watch(ctx)
    name = ctx.enum(["rasterize", "mask", "clip", "erase", "maskop", "envelope", "zonal", "extract", "length", "to_crs", "cast", "objectid", "buffer", "simplify", "getitem", "save", "shuffle", "spatial",
                     "load", "copy", "dask", "shapely", "bounds"])
    kind = {"extract": "point", "length": "line"}.get(name, "poly")
    g = ops.shapes(ctx, t, kind, n=1 if name in ("clip", "erase", "maskop", "envelope") else ctx.int(2, 6))
    if name in ("clip", "erase", "maskop", "envelope"):
        import shapely

        g = g.set_geometry(g.geometry.union(shapely.box(t.x[1] - 0.7 * t.rx, t.y[2] - 0.7 * t.ry, t.x[2] + 0.6 * t.rx, t.y[1] + 0.6 * t.ry)))
    if name not in ("cast",):
        g = g.assign(label=[f"n{i}" for i in range(len(g))])
    g.attrs["note"] = "kept"
    form = ctx.choice(["frame", "vector", "dask", "vector_dask", "dask_spatial"])
    if ctx.chance(0.3) and name not in ("getitem",) and form == "frame":
        g.index = g.index[::-1] if False else g.index
    ctx.describe(name=name, form=form)
    k = ctx.int(1, min(3, len(g)))
    w.add("frame", g)
    src = g
    if form != "frame" and form != "vector":
        src = dgpd.from_geopandas(g, npartitions=k)
        if form == "dask_spatial":
            src.calculate_spatial_partitions()
        w.add("dask_frame", src)
    if form.startswith("vector"):
        src = w.add("vector", rts.Vector(src))
    with sut(ctx):
        r = hold(ctx, m, w, 0)
        v = src if isinstance(src, rts.Vector) else rts.Vector(src)
        w.add("wrapped", v)
        calls = {
            "rasterize": lambda: rasterize.rasterize(src, r, field="v", overlap_resolve_method=ctx.choice(["last"])),
            "mask": lambda: v.to_raster(r, mask=True), "clip": lambda: clipping.clip(src, r), "erase": lambda: clipping.erase(src, r), "maskop": lambda: clipping.mask(src, r),
            "envelope": lambda: clipping.envelope(src, r), "zonal": lambda: zonal.zonal_stats(src, r, ["mean", "max"], features_field="v"),
            "extract": lambda: zonal.extract_points_eager(src, r, "e"), "length": lambda: line_stats.length(src, r, 1.5 * t.rx, weighting_field="w"),
            "to_crs": lambda: v.to_crs("EPSG:4326"), "cast": lambda: v.cast_field("v", "float64"), "objectid": lambda: v.add_objectid_column(), "buffer": lambda: v.buffer(2.0),
            "simplify": lambda: v.simplify(0.1), "getitem": lambda: v[0], "save": lambda: v.save(os.path.join(ctx.tmp, "v.gpkg")), "shuffle": lambda: v.spatial_shuffle(),
            "spatial": lambda: v.calculate_spatial_partitions(), "load": lambda: v.load(), "copy": lambda: v.copy(), "dask": lambda: v.to_dask(), "shapely": lambda: v.to_shapely(),
            "bounds": lambda: np.asarray(dask.compute(v.bounds)[0]),
        }
        out = calls[name]()
        w.verify(f"features:{name}", f"by {name}")
        if out is not None:
            a = look(out)
            w.verify(f"features_computed:{name}", f"by computing the result of {name}")
            again = look(calls[name]())
            ctx.count("second_calls")
            if name != "shuffle":
                compare(ctx, a, again, f"features_reuse:{name}", "the effect of the features, used again,")
    ctx.interesting()
    ctx.note(name, form, [x.wkb_hex for x in g.geometry])


def look(out):
    if isinstance(out, Raster):
        return ("raster", None, freeze_raster(out))
    if isinstance(out, rts.Vector):
        return freeze(out.data.compute())
    if hasattr(out, "compute"):
        return freeze(out.compute())
    return freeze(out)


FAMILIES = {
    "ops": (f_ops, 4 * len(ops.OPS), 80 * len(ops.OPS)),
    "history": (f_history, 48, 1500),
    "copies": (f_copies, 40, 1200),
    "constructors": (f_constructors, 96, 1600),
    "options": (f_options, 54, 900),
    "features": (f_features, 92, 1500),
}
