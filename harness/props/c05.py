"""C05: operations are lazy; nothing is read before it is asked for, and only what is needed."""
import os
import threading

import dask
import dask.dataframe as dd
import dask_geopandas as dgpd
import geopandas as gpd
import numpy as np
import rasterio as rio
import raster_tools as rts
from raster_tools import creation, rasterize, zonal
from raster_tools.raster import Raster

import gen
import ops
import vec
from core import Skip, sut

PROP = "C05"
RULE = ("input rasters whose every chunk read is recorded (arrays that log each access, files whose pixel blocks are damaged so that any read fails, feature partitions made by a "
        "logging function); build: one operation, chain: 2-6 operations, both judged before and after computing; selective: one output block of a cell-wise or neighbourhood "
        "operation is computed and the source chunks read are compared with the ones it depends on; non-trivial when the monitor saw reads after, and none before, computing")
REQUIRED = ["ops_built", "reads_seen_computing", "chain_steps", "blocks_computed_alone", "files_untouched", "loads", "metadata_queries", "partition_reads"]

# global algorithms that compute while being called: cost distance evaluates the whole surface (it returns finished
# arrays), load() is the request itself; regions() without given values collects them "up front" (documented)
EAGER = {"load", "cost_distance"}


class Source:
    """An array that records every read of a non-empty piece of it."""

    def __init__(self, a, log, lock):
        self.a, self.log, self.lock = a, log, lock
        self.shape, self.dtype, self.ndim = a.shape, a.dtype, a.ndim

    def __dask_tokenize__(self):
        return "source", id(self)

    def __getitem__(self, idx):
        out = self.a[idx]
        if out.size:
            with self.lock:
                self.log.append((id(self), idx))
        return out


class Monitor:
    def __init__(self):
        self.log, self.lock, self.keep = [], threading.Lock(), []

    def wrap(self, a):
        s = Source(a, self.log, self.lock)
        self.keep.append(s)
        return s


def quiet(ctx, mon, key, what):
    ctx.check(not mon.log, key, f"{what} read pixels: {len(mon.log)} chunk reads", reads=mon.log[:6])


def eager(o, args):
    return o.name in EAGER or (o.name == "regions" and args.get("u") is None)


def f_build(ctx):
    o = ops.OPS[ctx.enum([n for n in sorted(ops.OPS) if n not in EAGER])]
    ms = ops.inputs(ctx, o)
    if ms is None:
        raise Skip("no input fits")
    ctx.describe(op=o.name)
    mon = Monitor()
    with sut(ctx):
        rs = ops.build_all(ctx, o, ms, wrap=mon.wrap)
    quiet(ctx, mon, "input", "making the input raster")
    args, call = o.f(ctx, ops.Meta.model(ms[0]))
    ctx.describe(args=args)
    if eager(o, args):
        raise Skip("documented to compute")
    with sut(ctx):
        out = call(rs, args)
    ctx.count("ops_built")
    quiet(ctx, mon, f"build:{o.name}", f"calling {o.name}")
    for x in ops.flatten(out):
        if isinstance(x, Raster):
            ctx.check(ops.is_lazy(x) and dask.is_dask_collection(x.mask), f"deferred:{o.name}", "the result is not deferred")
            with sut(ctx):
                str((x, x.shape, x.dtype, x.null_value, x.crs))
                if min(x.shape[1:]) > 1:
                    str((x.affine, x.bounds, x.resolution))
    quiet(ctx, mon, f"look:{o.name}", f"looking at the result of {o.name}")
    with sut(ctx):
        a = ops.Seen(out, o)
    if mon.log:
        ctx.interesting()
    ctx.count("reads_seen_computing", len(mon.log))
    # asked again, the same result
    with sut(ctx):
        b = ops.Seen(out, o)
    d = ops.diff(a, b, 0.0) if o.name != "random" else None
    ctx.check(d is None, f"again:{o.name}", "the result evaluates differently the second time: " + str(d))


def f_chain(ctx):
    import props.c03 as c03

    mon = Monitor()
    m = gen.model(ctx, min_side=4, max_side=12, kind=ctx.choice(["small", "cat", "ramp"]), crs=ctx.choice(["EPSG:5070", "rand"]))
    r = gen.build(ctx, m, wrap=mon.wrap)
    steps, outs = [], []
    for _ in range(ctx.int(2, 6)):
        t = ops.Meta.of(r)
        if t.shape[1] * t.shape[2] * t.shape[0] > 3000 or t.shape[0] > 6:
            break
        cand = [o for o in ops.OPS.values() if not o.frame and o.group != "scalar" and o.pre(t) and o.name not in EAGER and o.name not in ("mosaic", "null_to_nan", "regions")
                and not (o.need.get("nulls") is False and t.nv is not None)]
        o = ctx.choice(sorted(cand, key=lambda q: q.name))
        rs = [r] + ([c03.from_meta(ctx, o, t)] if o.n == 2 else [])
        args, call = o.f(ctx, t)
        steps.append((o.name, {k: (v if not hasattr(v, "geometry") else "frame") for k, v in args.items()}))
        ctx.desc = [d for d in ctx.desc if not d.startswith("steps=")]
        ctx.describe(steps=steps)
        try:
            out = call(rs, args)
        except Exception as e:  # noqa: BLE001
            ctx.count(f"refused:{o.name}:{type(e).__name__}")
            continue
        quiet(ctx, mon, f"chain:{o.name}", f"calling {o.name} in a chain")
        out = [x for x in ops.flatten(out) if isinstance(x, Raster)]
        if not out:
            continue
        ctx.count("chain_steps")
        r = ctx.choice(out)
        outs.append(r)
        ctx.note(o.name)
    if not outs:
        raise Skip("no step applied")
    with sut(ctx):
        o1 = gen.Obs(outs[-1])
        ctx.count("reads_seen_computing", len(mon.log))
        ctx.interesting(mon.log)
        # loading gives the same raster and leaves the original as it is
        if "random" not in [s[0] for s in steps]:
            back = outs[-1].load()
            same(ctx, o1, gen.Obs(back), "chain_load")


def same(ctx, a, b, key):
    for f in ("meta_dtype", "shape", "dims"):
        ctx.check(getattr(a, f) == getattr(b, f), f"{key}:{f}", got=getattr(b, f), want=getattr(a, f))
    ctx.check(gen.same_value(a.null, b.null), key + ":null", got=b.null, want=a.null)
    ctx.check(gen.crs_same(a.crs, b.crs), key + ":crs", got=b.crs, want=a.crs)
    ctx.check(np.array_equal(a.x, b.x) and np.array_equal(a.y, b.y), key + ":grid")
    gen.check_cells(ctx, b, a.data, a.mask, key=key)


# ------------------------------------------------------- only what is needed

CELL = ("scalar_arith raster_arith array_arith bandwise bitwise unary multi_out inplace round astype set_null_value set_null replace_null to_null_mask burn_mask set_crs "
        "where_method where remap_range reclassify null_to_nan copy map_blocks geo_map_blocks get_bands split_bands like").split()
NEAR = "focal correlate dilate surface tpi map_overlap geo_map_overlap".split()
PART = "clip clip_box pad to_quadrants get_chunk_rasters".split()


def f_selective(ctx):
    """Computing one block of a result reads the source chunks it depends on, not the raster."""
    o = ops.OPS[ctx.enum(CELL + NEAR + PART)]
    k = ctx.choice([4, 5, 6])
    ny, nx = k * ctx.int(5, 8), k * ctx.int(5, 8)
    need = dict(o.need)
    kw = {q: need[q] for q in ("dtypes", "kind", "nulls", "crs", "square", "p_masked") if q in need}
    kw.setdefault("kind", "cat")
    for _ in range(40):
        m = gen.model(ctx, shape=(ctx.int(2, 3), ny, nx), **kw)
        if o.pre(ops.Meta.model(m)):
            break
    else:
        raise Skip("no input fits")
    ms = [m] + ([ops.second(ctx, need, m)] if o.n == 2 else [])
    chunks = ((k,) * (ny // k), (k,) * (nx // k))
    ctx.describe(op=o.name, block=k)
    mon = Monitor()
    rs = ops.build_all(ctx, o, ms, chunks=chunks, wrap=mon.wrap)
    args, call = o.f(ctx, ops.Meta.model(m))
    ctx.describe(args=args)
    with sut(ctx):
        out = call(rs, args)
    quiet(ctx, mon, f"build:{o.name}", f"calling {o.name}")
    outs = [x for x in ops.flatten(out) if isinstance(x, Raster)]
    # the values are those of the whole: ask for a few blocks of a few results
    halo = 3 if o.name in NEAR else 0
    for r in [ctx.choice(outs) for _ in range(2)]:
        nb = r.data.numblocks
        for _ in range(2):
            pos = tuple(ctx.int(0, n - 1) for n in nb)
            ends = [np.cumsum((0, *c)) for c in r.data.chunks]
            ys, xs = slice(ends[1][pos[1]], ends[1][pos[1] + 1]), slice(ends[2][pos[2]], ends[2][pos[2] + 1])
            # source cells by coordinate (pieces and padded results are on shifted grids)
            wy, wx = np.asarray(r.y)[ys], np.asarray(r.x)[xs]
            ry, rx = abs(m.y[0] - m.y[1]), abs(m.x[1] - m.x[0])
            cy = np.flatnonzero((m.y > wy.min() - (halo + 0.5) * ry) & (m.y < wy.max() + (halo + 0.5) * ry))
            cx = np.flatnonzero((m.x > wx.min() - (halo + 0.5) * rx) & (m.x < wx.max() + (halo + 0.5) * rx))
            want = {(int(i) // k, int(j) // k) for i in cy for j in cx}
            for what in ("data", "mask"):
                mon.log.clear()
                with sut(ctx):
                    getattr(r, what).blocks[pos].compute(scheduler="sync")
                ctx.count("blocks_computed_alone")
                got = set()
                for _, idx in mon.log:
                    sy, sx = idx[1], idx[2]
                    for a in range(sy.start // k, -(-sy.stop // k)):
                        for b in range(sx.start // k, -(-sx.stop // k)):
                            got.add((a, b))
                ctx.count("source_chunks_read", len(got))
                ctx.check(got <= want, f"selective:{o.name}:{what}", f"computing block {pos} of {o.name} read source chunks it does not depend on",
                          got=sorted(got), want=sorted(want), block=(ys, xs))
                ctx.interesting(bool(got))


# ------------------------------------------------------- files

def poisoned(ctx, m):
    """A GeoTIFF whose header is fine and whose pixels cannot be read."""
    path = os.path.join(ctx.tmp, f"p{ctx.int(0, 10**6)}.tif")
    tr = rio.Affine(m.x[1] - m.x[0], 0, m.x[0] - (m.x[1] - m.x[0]) / 2, 0, m.y[1] - m.y[0], m.y[0] - (m.y[1] - m.y[0]) / 2)
    with rio.open(path, "w", driver="GTiff", width=m.shape[2], height=m.shape[1], count=m.shape[0], dtype=m.dtype, crs=m.crs, transform=tr, nodata=m.nv,
                  tiled=True, blockxsize=16, blockysize=16, compress="deflate", interleave="band") as f:
        f.write(np.where(m.data == 0, ctx.rng.integers(1, 9, m.shape).astype(m.dtype), m.data))
    good = open(path, "rb").read()
    with rio.open(path) as f:
        spans = []
        for b in range(1, m.shape[0] + 1):
            for j in range(-(-m.shape[1] // 16)):
                for i in range(-(-m.shape[2] // 16)):
                    off = f.tags(b, ns="TIFF").get(f"BLOCK_OFFSET_{i}_{j}") or f.get_tag_item(f"BLOCK_OFFSET_{i}_{j}", "TIFF", bidx=b)
                    size = f.get_tag_item(f"BLOCK_SIZE_{i}_{j}", "TIFF", bidx=b)
                    if off and size:
                        spans.append((int(off), int(size)))
    bad = bytearray(good)
    for off, size in spans:
        bad[off:off + size] = b"\xff" * size
    with open(path, "wb") as f:
        f.write(bad)
    return path, bool(spans)


def f_file(ctx):
    dts = ["uint8", "int16", "int32", "float32", "float64"]
    m = gen.model(ctx, dtypes=dts, min_side=18, max_side=40, crs="EPSG:5070", kind="cat", square=True, max_bands=2)
    if m.mask.all():
        raise Skip("nothing to read")
    path, ok = poisoned(ctx, m)
    if not ok:
        raise Skip("empty blocks")
    with sut(ctx):
        r = Raster(path)
        t = ops.Meta.of(r)
        # the header is known without the pixels
        ctx.check(t.shape == m.shape and t.dtype == m.dtype and (gen.same_value(t.nv, m.nv) or (m.nv is None and t.dtype.kind == "f" and np.isnan(t.nv))), "file:header", got=(t.shape, t.dtype, t.nv), want=m.desc())
        names = [o.name for o in ops.OPS.values() if o.n == 1 and o.name not in EAGER and not o.frame and o.group != "scalar" and o.pre(t) and not (o.need.get("nulls") is False and t.nv is not None)
                 and o.name != "regions"]
        done = []
        for n in [ctx.choice(sorted(names)) for _ in range(3)]:
            o = ops.OPS[n]
            args, call = o.f(ctx, t)
            # any read of a pixel raises here
            out = [x for x in ops.flatten(call([r], args)) if isinstance(x, Raster)]
            ctx.count("ops_built")
            done.append((n, out))
    ctx.describe(ops=[d[0] for d in done])
    # the monitor works: asking for the pixels fails
    try:
        r.data.compute()
    except Exception:  # noqa: BLE001
        ctx.count("files_untouched")
        ctx.interesting()
    else:
        raise Skip("the damaged file can be read")
    for n, out in done:
        for x in out[:1]:
            if n in ("data_like", "like", "random", "length", "rasterize", "clip", "clip_box", "get_bands", "to_null_mask", "pad", "get_chunk_rasters", "to_quadrants", "split_bands"):
                continue
            try:
                x.data.compute()
            except Exception:  # noqa: BLE001
                ctx.count("read_errors_surface")
            else:
                ctx.fail(f"file:error_lost:{n}", "the pixels of the file cannot be read, but computing the result raised no error")


# ------------------------------------------------------- loading, metadata

def f_load(ctx):
    m = gen.model(ctx, max_side=14, unburned=ctx.chance(0.3))
    mon = Monitor()
    r = gen.build(ctx, m, wrap=mon.wrap)
    lazy = r
    for _ in range(ctx.int(0, 2)):
        lazy = ctx.choice([lambda q: q.copy(), lambda q: q + 0 if q.dtype.kind in "iuf" else q, lambda q: q.get_bands(1), lambda q: q.burn_mask()])(lazy)
    quiet(ctx, mon, "load:before", "building")
    with sut(ctx):
        want = gen.Obs(lazy)
        mon.log.clear()
        sched = ctx.choice(["sync", "threads"])
        with dask.config.set(scheduler=sched):
            back = lazy.load() if ctx.chance(0.7) else lazy.eval()
        ctx.count("loads")
        ctx.count("reads_seen_computing", len(mon.log))
        ctx.interesting(mon.log)
        mon.log.clear()
        got = gen.Obs(back)
        ctx.check(not mon.log, "load:rereads", "computing a loaded raster reads its sources again", reads=mon.log[:5])
        same(ctx, want, got, "load")
        gen.check_wellformed(ctx, got, key="load:form", burned=False)
        # later results come from memory
        str((back + 1 if back.dtype.kind in "iuf" else back).data.compute().sum())
        str(np.asarray(back.mask.compute()).sum())
        ctx.check(not mon.log, "load:rereads_later", "a result of a loaded raster reads its sources again", reads=mon.log[:5])
        # the raster that was loaded from is as it was
        ctx.check(back is not lazy, "load:same_object")
        same(ctx, want, gen.Obs(lazy), "load:original")
        ctx.check(bool(mon.log), "load:original_became_loaded", "loading changed the raster it was called on: it no longer reads its source")


def f_meta(ctx):
    m = gen.model(ctx, max_side=14, min_side=2, unburned=ctx.chance(0.3), crs="EPSG:5070")
    mon = Monitor()
    r = gen.build(ctx, m, wrap=mon.wrap)
    q = {
        "repr": lambda: repr(r), "html": lambda: getattr(r, "_repr_html_", str)(), "shape": lambda: r.shape, "size": lambda: r.size, "nbands": lambda: r.nbands,
        "dtype": lambda: r.dtype, "null_value": lambda: r.null_value, "masked": lambda: r._masked, "crs": lambda: r.crs, "affine": lambda: r.affine, "resolution": lambda: r.resolution,
        "bounds": lambda: r.bounds, "geobox": lambda: r.geobox, "x": lambda: np.asarray(r.x), "y": lambda: np.asarray(r.y), "band": lambda: np.asarray(r.band),
        "data": lambda: r.data, "mask": lambda: r.mask, "xdata": lambda: r.xdata, "xmask": lambda: r.xmask, "xy": lambda: r.xy(0, 1), "index": lambda: r.index(m.x[1], m.y[0]),
        "bandwise": lambda: r.bandwise, "geo_block_infos": lambda: r.geo_block_infos, "boxes": lambda: r.get_chunk_bounding_boxes(include_band=True), "coords": lambda: r.get_chunked_coords(),
        "to_dataset": lambda: r.to_dataset(), "get_raster": lambda: rts.get_raster(r), "copy": lambda: r.copy(), "ones_like": lambda: creation.ones_like(r, 2),
        "from_dataarray": lambda: Raster(r.xdata), "to_vector": lambda: r.to_vector() if m.dtype.name in ("int32", "float32") else None,
        "chunk": lambda: r.chunk((1, m.shape[1], m.shape[2])), "nbytes": lambda: r.data.nbytes,
    }
    for name, f in q.items():
        with sut(ctx):
            f()
        ctx.count("metadata_queries")
        quiet(ctx, mon, f"metadata:{name}", f"asking for {name}")
    ctx.interesting()
    with sut(ctx):
        v = r.to_numpy() if ctx.chance(0.5) else r.values
    ctx.count("reads_seen_computing", len(mon.log))
    ctx.check(gen.arrays_same(np.asarray(v)[m.valid], m.data[m.valid]), "values", got=v, want=m.data)


# ------------------------------------------------------- features

class Reader:
    """Makes a feature partition and records that it did."""

    def __init__(self, g, parts, log):
        self.g, self.parts, self.log = g, parts, log

    def __dask_tokenize__(self):
        return "reader", id(self.log)

    def __call__(self, i):
        self.log.append(i)
        return self.g.iloc[self.parts[i]]


def f_vector(ctx):
    m = gen.model(ctx, dtypes=["int32", "float32"], min_side=4, crs="EPSG:5070", square=True, max_bands=2)
    g = ops.shapes(ctx, ops.Meta.model(m), n=ctx.int(4, 9), kind=ctx.choice(["poly", "line", "point"]))
    k = ctx.int(2, 4)
    parts = [p for p in np.array_split(np.arange(len(g)), k) if len(p)]
    log = []
    div = [int(p[0]) for p in parts] + [int(parts[-1][-1])]
    ddf = dd.from_map(Reader(g, parts, log), list(range(len(parts))), meta=g.iloc[:0], divisions=tuple(div))
    dg = dgpd.from_dask_dataframe(ddf, geometry="geometry") if not isinstance(ddf, dgpd.GeoDataFrame) else ddf
    log.clear()

    def idle(what, size=False):
        if size:
            # documented: part of the data (the last partition) may be loaded to find the number of features
            ctx.count("size_reads", len(log))
            while len(parts) - 1 in log:
                log.remove(len(parts) - 1)
        ctx.check(not log, f"vector:{what}", f"{what} read feature partitions", reads=log[:5])
        ctx.count("vector_steps")

    with sut(ctx):
        # without a size part of the data is read to find it (documented)
        v = rts.Vector(dg, size=len(g))
        idle("Vector")
        str((v, v.crs, v.shape, v.field_names, v.field_dtypes, v.field_schema, v.tasks))
        idle("metadata")
        r = gen.build(ctx, m)
        steps = {
            "copy": lambda q: q.copy(), "cast_field": lambda q: q.cast_field("v", "float64"), "to_crs": lambda q: q.to_crs("EPSG:5070"), "buffer": lambda q: q.buffer(1.5),
            "simplify": lambda q: q.simplify(0.5), "objectid": lambda q: q.add_objectid_column(), "to_lazy": lambda q: q.to_lazy(),
        }
        for n in [ctx.choice(sorted(steps)) for _ in range(ctx.int(1, 3))]:
            if (n == "objectid" and "OBJECTID" in v.field_names) or (n == "cast_field" and "v" not in v.field_names):
                continue
            v = steps[n](v)
            idle(n, True)
        outs = {"bounds": lambda: v.bounds, "rasterize": lambda: rasterize.rasterize(v, r, field="v", use_spatial_aware=False),
                "mask": lambda: v.to_raster(r, mask=True), "zonal": lambda: zonal.zonal_stats(v, r, ["mean"], features_field="v")}
        n = ctx.choice(sorted(outs) if "v" in v.field_names else ["bounds", "mask"])
        out = outs[n]()
        if n != "zonal":
            idle(n, True)
        got = dask.compute(out.data if isinstance(out, Raster) else out)[0]
        str(got)
        v.load()
    ctx.check(bool(log), "vector:monitor", "computing read no partition")
    ctx.count("partition_reads", len(log))
    ctx.interesting()
    ctx.note(n, k, len(g))


NAMES = [n for n in sorted(ops.OPS) if n not in EAGER]
FAMILIES = {
    "build": (f_build, 4 * len(NAMES), 60 * len(NAMES)),
    "chain": (f_chain, 80, 2500),
    "selective": (f_selective, 2 * len(CELL + NEAR + PART), 30 * len(CELL + NEAR + PART)),
    "file": (f_file, 60, 900),
    "load": (f_load, 80, 1500),
    "metadata": (f_meta, 40, 400),
    "vector": (f_vector, 60, 900),
}
