"""C32: every way to ask for the same thing gives the same result."""
import pathlib
import warnings

import dask
import dask.dataframe as dd
import dask_geopandas as dgpd
import geopandas as gpd
import numpy as np
import pandas as pd
import pyproj
import raster_tools as rts
from odc.geo.geobox import GeoBox
from raster_tools import clipping, creation, distance, focal, general, line_stats, rasterize, surface, zonal
from raster_tools import vector as V
from rasterio.crs import CRS as RCRS

import gen
from core import expect_raises, sut
from gen import Obs, arrays_same, crs_same, same_value
from vec import extent, partition, rand_geom

PROP = "C32"
RULE = ("sources: one function, its raster and vector inputs given as objects, path strings, Path objects, geopandas or dask-geopandas frames; methods: the method and the function; "
        "parts: functions that return one part of another's result; aliases: properties that name the same thing, deprecated names included; spellings: the same argument as "
        "str/int/CRS object, dtype name/object, list/tuple/array, Python/numpy scalar. All results of a case are compared cell by cell (nulls, null value, dtype, grid, CRS). "
        "Non-trivial: nulls, several bands or several chunks")
REQUIRED = ["results_compared", "raster_paths", "vector_forms", "methods", "parts", "aliases", "spellings", "cells_compared"]
DT = ["uint8", "int16", "int32", "float32", "float64"]


def same(ctx, a, b, key, rtol=0.0, **info):
    """a and b are the same result."""
    ctx.count("results_compared")
    if isinstance(a, rts.Raster) or isinstance(b, rts.Raster):
        ctx.check(isinstance(a, rts.Raster) and isinstance(b, rts.Raster), key + ":type", got=type(b), want=type(a), **info)
        p, q = Obs(a), Obs(b)
        ctx.check(p.data.shape == q.data.shape, key + ":shape", got=q.data.shape, want=p.data.shape, **info)
        ctx.check(p.data.dtype == q.data.dtype, key + ":dtype", got=q.data.dtype, want=p.data.dtype, **info)
        ctx.check(same_value(p.null, q.null), key + ":null_value", got=q.null, want=p.null, **info)
        ctx.check(np.array_equal(p.mask, q.mask), key + ":nulls", got=q.mask, want=p.mask, **info)
        ctx.check(arrays_same(p.data[~p.mask], q.data[~p.mask], rtol=rtol, atol=rtol), key + ":values", got=q.data, want=p.data, **info)
        ctx.check(np.array_equal(p.x, q.x) and np.array_equal(p.y, q.y), key + ":grid", got=(q.x, q.y), want=(p.x, p.y), **info)
        ctx.check(crs_same(p.crs, q.crs), key + ":crs", got=q.crs, want=p.crs, **info)
        ctx.count("cells_compared", p.data.size)
    elif isinstance(a, V.Vector):
        ctx.check(isinstance(b, V.Vector), key + ":type", got=type(b), **info)
        same(ctx, a.data, b.data, key, **info)
    elif isinstance(a, (list, tuple)):
        ctx.check(len(a) == len(b), key + ":length", got=len(b), want=len(a), **info)
        for p, q in zip(a, b):
            same(ctx, p, q, key, **info)
    elif isinstance(a, (pd.DataFrame, pd.Series)) or dask.is_dask_collection(a) and hasattr(a, "npartitions") and hasattr(a, "divisions"):
        p = a.compute() if dask.is_dask_collection(a) else a
        q = b.compute() if dask.is_dask_collection(b) else b
        ctx.check(len(p) == len(q), key + ":rows", got=len(q), want=len(p), **info)
        if isinstance(p, pd.DataFrame):
            ctx.check(list(p.columns) == list(q.columns), key + ":columns", got=list(q.columns), want=list(p.columns), **info)
        cols = p.columns if isinstance(p, pd.DataFrame) else [None]
        for c in cols:
            u, v = (p, q) if c is None else (p[c], q[c])
            if u.dtype.name == "geometry":
                ok = [None if s is None else s.wkb for s in u] == [None if s is None else s.wkb for s in v]
            else:
                ok = all(x == y or (pd.isna(x) and pd.isna(y)) for x, y in zip(u.tolist(), v.tolist()))
            ctx.check(ok, key + ":table", column=c, got=v.tolist()[:20], want=u.tolist()[:20], **info)
        ctx.count("cells_compared", len(p))
    else:
        p, q = (np.asarray(z.compute() if dask.is_dask_collection(z) else z) for z in (a, b))
        ctx.check(p.shape == q.shape and p.dtype == q.dtype and (arrays_same(p, q) if p.dtype.kind in "biuf" else p.tolist() == q.tolist()), key + ":array", got=q, want=p, **info)
        ctx.count("cells_compared", p.size)


def source(ctx, **kw):
    kw.setdefault("dtypes", DT)
    kw.setdefault("min_side", 3)
    kw.setdefault("max_side", 12)
    kw.setdefault("crs", ctx.choice(["EPSG:5070", "EPSG:32611"]))
    m = gen.model(ctx, **kw)
    return m, gen.build(ctx, m)


def saved(ctx, r, name):
    path = f"{ctx.tmp}/{name}.tif"
    with sut(ctx):
        r.save(path)
    return path


class Model:
    def predict(self, x):
        return np.asarray(x).sum(1)[:, None] * 2.0 + 1


def features(ctx, m, kinds=("box", "tri", "blob", "ring", "multi")):
    n = ctx.int(1, 7)
    g = gpd.GeoDataFrame({"k": ctx.rng.integers(1, 60, n), "w": np.round(ctx.rng.random(n) * 9, 2)}, geometry=[rand_geom(ctx, extent(m), kinds) for _ in range(n)], crs=m.crs)
    return g


# name -> call(raster, other raster, features); None when not taken
R1 = {
    "regions": lambda a, b, v: general.regions(a, 8), "aggregate": lambda a, b, v: general.aggregate(a, (2, 2), "max"),
    "model_predict_raster": lambda a, b, v: general.model_predict_raster(a, Model()), "local_stats": lambda a, b, v: general.local_stats(a, "mean"),
    "dilate": lambda a, b, v: general.dilate(a, 3), "erode": lambda a, b, v: general.erode(a, 3), "band_concat": lambda a, b, v: general.band_concat([a, b]),
    "remap_range": lambda a, b, v: general.remap_range(a, [(0, 9, 1), (9, 99, 2)]), "where": lambda a, b, v: general.where(b, a, 3),
    "where_false": lambda a, b, v: general.where(b, 1, a), "reclassify": lambda a, b, v: general.reclassify(a, {1: 2, 2: 7}), "slope": lambda a, b, v: surface.slope(a),
    "aspect": lambda a, b, v: surface.aspect(a), "curvature": lambda a, b, v: surface.curvature(a), "surface_area": lambda a, b, v: surface.surface_area_3d(a),
    "hillshade": lambda a, b, v: surface.hillshade(a), "northing": lambda a, b, v: surface.northing(a), "easting": lambda a, b, v: surface.easting(a, is_aspect=True),
    "tpi": lambda a, b, v: surface.tpi(a, 1, 3), "focal": lambda a, b, v: focal.focal(a, "mean", 3, 3), "correlate": lambda a, b, v: focal.correlate(a, np.ones((3, 3))),
    "convolve": lambda a, b, v: focal.convolve(a, np.ones((3, 3))), "clip_box": lambda a, b, v: clipping.clip_box(a, box(a)), "reproject": lambda a, b, v: rts.reproject(a, "EPSG:3857"),
    "mosaic": lambda a, b, v: rts.mosaic([a, b]), "stack": lambda a, b, v: rts.stack_bands([a, b]),
    "stack_grid": lambda a, b, v: rts.stack_bands([b], dst_grid=strpath(a)), "mosaic_grid": lambda a, b, v: rts.mosaic([b], dst_grid=strpath(a)),
    "pad": lambda a, b, v: rts.pad(a, grown(a)), "pad_target": lambda a, b, v: rts.pad(a, as_raster(b)), "proximity": lambda a, b, v: distance.pa_proximity(a),
    "allocation": lambda a, b, v: distance.pa_allocation(a, [1, 2]), "full_like": lambda a, b, v: creation.full_like(a, 5, bands=2, copy_mask=True),
    "set_null": lambda a, b, v: as_raster(a).set_null(b), "where_method": lambda a, b, v: as_raster(b).where(as_raster(b) > 2, a),
    "zones_raster": lambda a, b, v: zonal.zonal_stats(zones(as_raster(b)), a, ["mean", "max"]),
    "cost_distance": lambda a, b, v: distance.cda_cost_distance(costs(a), [(0, 0), (2, 2)]),
}
RV = {
    "clip": lambda a, b, v: clipping.clip(v, a), "erase": lambda a, b, v: clipping.erase(v, a), "mask": lambda a, b, v: clipping.mask(v, a), "envelope": lambda a, b, v: clipping.envelope(v, a),
    "zonal": lambda a, b, v: zonal.zonal_stats(v, a, ["sum", "count"]), "rasterize": lambda a, b, v: rasterize.rasterize(v, a, field="k"),
    "rasterize_mask": lambda a, b, v: rasterize.rasterize(v, a, mask=True), "length": lambda a, b, v: line_stats.length(v, a, 2 * cell(a)),
    "extract": lambda a, b, v: zonal.extract_points_eager(v, a), "predict_vector": lambda a, b, v: general.model_predict_vector(v, Model(), ["w"]),
    "objectid": lambda a, b, v: V.get_vector(V.add_objectid_column(v)),
}


def as_raster(a):
    return a if isinstance(a, rts.Raster) else rts.Raster(a)


def strpath(a):
    """Grids are documented as rasters or path strings."""
    return str(a) if isinstance(a, pathlib.Path) else a


def cell(a):
    return float(abs(as_raster(a).affine.a))


def box(a):
    r = as_raster(a)
    x0, y0, x1, y1 = r.bounds
    return (x0 + (x1 - x0) * 0.2, y0 + (y1 - y0) * 0.1, x1, y1)


def grown(a):
    r = as_raster(a)
    x0, y0, x1, y1 = r.bounds
    c, d = abs(r.affine.a), abs(r.affine.e)
    return (x0 - 2 * c, y0, x1, y1 + d)


def zones(a):
    """The zones have to be of an integer dtype."""
    r = as_raster(a)
    if r.dtype.kind in "iu":
        return a
    return r.astype("int32", warn_about_null_change=False)


def costs(a):
    return a


def f_sources(ctx):
    names = [*R1, *RV]
    name = ctx.enum(names)
    vec = name in RV
    dts = ["int16", "int32", "uint8"] if name in ("regions", "zones_raster", "allocation", "dilate", "erode") else DT
    m, _ = source(ctx, dtypes=dts, shape=None if name not in ("tpi", "cost_distance") else (1, ctx.int(4, 12), ctx.int(4, 12)), kind="cat" if name == "regions" else "small")
    m2 = gen.model(ctx, shape=m.shape, dtypes=["uint8", "int16"], kind="small", crs=m.crs, grid=(m.x, m.y))
    pa, pb = saved(ctx, gen.build(ctx, m), "a"), saved(ctx, gen.build(ctx, m2), "b")
    ctx.interesting(m.mask.any() or m.shape[0] > 1)
    kinds = {"extract": ("point",), "length": ("line",)}.get(name, ("box", "tri", "blob", "ring"))
    g = features(ctx, m, kinds)
    call = (RV if vec else R1)[name]
    ctx.describe(function=name, features=len(g))
    ctx.note(name, m.data, m.mask, g.geometry.to_wkb().sum() if vec else "")
    forms = [(rts.Raster(pa), rts.Raster(pb)), (pa, pb), (pathlib.Path(pa), pathlib.Path(pb))]
    vforms = [V.Vector(g), None, None]
    if vec:
        gp = f"{ctx.tmp}/f.gpkg"
        g.to_file(gp)
        parts = ctx.int(1, min(4, len(g)))
        vforms = [V.Vector(g), gp, pathlib.Path(gp), g, partition(ctx, g, parts)]
        if name in ("objectid", "zonal"):
            vforms = vforms[:2]
        forms = [forms[ctx.int(0, 2)] for _ in vforms]
        forms[0] = (rts.Raster(pa), rts.Raster(pb))
        ctx.count("vector_forms", len(vforms))
    ref = err = None
    for k, ((a, b), v) in enumerate(zip(forms, vforms)):
        try:
            with sut(ctx), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = call(a, b, v)
        except Exception as e:  # an input that is refused has to be refused in every form
            if k == 0:
                err = e
                continue
            if err is None:
                raise
            ctx.check(type(e) is type(err), "sources:error", "refused differently", got=repr(e)[:200], want=repr(err)[:200])
            continue
        ctx.check(err is None, "sources:error", "accepted in another form only", got=type(a).__name__, want=repr(err)[:200])
        if k == 0:
            ref = out
        else:
            same(ctx, ref, out, "sources:" + name, rtol=1e-4 if name == "length" else 0.0, forms=(type(a).__name__, type(b).__name__, type(v).__name__))
        if isinstance(a, (str, pathlib.Path)):
            ctx.count("raster_paths")
    if err is not None:
        ctx.count("refused_everywhere")


def f_methods(ctx):
    m, r = source(ctx, shape=(ctx.int(1, 3), ctx.int(4, 12), ctx.int(4, 12)), kind="small", unburned=ctx.chance(0.2))
    m2 = gen.model(ctx, shape=m.shape, dtypes=["uint8", "int16"], kind="small", crs=m.crs, grid=(m.x, m.y))
    s = gen.build(ctx, m2)
    g = features(ctx, m)
    v = V.Vector(partition(ctx, g, ctx.int(1, min(4, len(g)))))
    mp = {1: 5, 2: None} if ctx.chance(0.5) else {0: 3}
    rng = [(0, 5, 1), (5, 60, 2)]
    inc = ctx.choice(["left", "right", "both", "none"])
    unm = ctx.chance(0.5)
    to = ctx.choice(["EPSG:3857", "EPSG:5070"])
    b = grown(r)
    pairs = {
        "reclassify": (lambda: r.reclassify(mp, unm), lambda: general.reclassify(r, mp, unm), lambda: rts.reclassify(r, mp, unmapped_to_null=unm)),
        "remap_range": (lambda: r.remap_range(rng, inc), lambda: general.remap_range(r, rng, inc), lambda: rts.remap_range(r, rng, inclusivity=inc)),
        "where": (lambda: r.where(s > 2, s), lambda: general.where(s > 2, r, s)),
        "where_scalar": (lambda: r.where(s > 2, 4), lambda: general.where(s > 2, r, 4)),
        "model_predict": (lambda: r.model_predict(Model(), 1), lambda: general.model_predict_raster(r, Model(), n_outputs=1)),
        "reproject": (lambda: r.reproject(to), lambda: rts.reproject(r, to), lambda: rts.warp.reproject(r, crs_or_geobox=to, resample_method="nearest")),
        "pad": (lambda: r.pad(b), lambda: rts.pad(r, b)),
        "split": (lambda: r.split_bands(), lambda: rts.split_bands(r), lambda: [r.get_bands(i + 1) for i in range(m.shape[0])]),
        "map_blocks": (lambda: r.map_blocks(double), lambda: rts.map_blocks(double, r)),
        "map_overlap": (lambda: r.map_overlap(blur, depth=1, boundary=0), lambda: rts.map_overlap(blur, r, depth=1, boundary=0)),
        "geo_map_blocks": (lambda: r.geo_map_blocks(geo_double), lambda: rts.geo_map_blocks(geo_double, r)),
        "to_raster": (lambda: v.to_raster(r, field="k"), lambda: rasterize.rasterize(v, r, field="k"), lambda: rasterize.rasterize(v.data, r, field="k")),
        "vector_predict": (lambda: v.model_predict(Model(), ["w"]), lambda: general.model_predict_vector(v, Model(), ["w"])),
        "objectid": (lambda: v.add_objectid_column("id"), lambda: V.add_objectid_column(v, "id")),
        "to_vector": (lambda: r.to_points(), lambda: r.to_vector()),
        "set_null_value": (lambda: r.set_null_value(77), lambda: r.copy().set_null_value(77)),
        "bandwise": (lambda: r.bandwise + [2] * m.shape[0] if m.shape[0] > 1 else 2 + r, lambda: r + 2),
        "astype": (lambda: r.astype("float64"), lambda: r.astype(np.float64), lambda: r.astype(np.dtype("f8"))),
        "iter": (lambda: [r.get_bands([i + 1]) for i in range(m.shape[0])], lambda: [r.get_bands(int(k)) for k in r.band]),
    }
    name = ctx.enum(list(pairs))
    ctx.describe(pair=name, model=m.desc())
    ctx.note(name, m.data, m.mask, mp, inc, unm, to)
    ctx.interesting(m.mask.any() or m.shape[0] > 1)
    if name == "set_null_value" and (m.data == 77).any():
        name = "astype"
    with sut(ctx):
        first, *rest = (f() for f in pairs[name])
        for o in rest:
            same(ctx, first, o, "methods:" + name)
    ctx.count("methods", len(rest))


def double(x):
    return x * 2


def geo_double(x, *, geo_info=None):
    return x * 2


def blur(x):
    return x + np.roll(x, 1, -1)


def f_parts(ctx):
    kind = ctx.enum(["cda", "pa", "quadrants", "like", "window", "stats", "wide", "convolve", "surface"])
    m, r = source(ctx, shape=(1, ctx.int(3, 10), ctx.int(3, 10)), kind="small", dtypes=["int32", "float32", "float64"])
    ctx.describe(kind=kind, model=m.desc())
    ctx.note(kind, m.data, m.mask)
    ctx.interesting(m.mask.any())
    k = "parts:" + kind
    with sut(ctx):
        if kind == "cda":
            con = ctx.choice([4, 8])
            src = np.array(sorted({(ctx.int(0, m.shape[1] - 1), ctx.int(0, m.shape[2] - 1)) for _ in range(ctx.int(1, 3))}))
            c = abs(r) + 1
            cd, tb, al = distance.cost_distance_analysis(c, src, connectivity=con)
            same(ctx, [cd, tb, al], [distance.cda_cost_distance(c, src, connectivity=con), distance.cda_traceback(c, src, connectivity=con), distance.cda_allocation(c, src, connectivity=con)], k)
            other = distance.cost_distance_analysis(c, ctx.choice([src.tolist(), [tuple(map(int, p)) for p in src], tuple(map(tuple, src))]), connectivity=con)
            same(ctx, [cd, tb, al], list(other), k + ":sequence")
        elif kind == "pa":
            tv = ctx.choice([None, [1], [1, 2, 3]])
            md = ctx.choice([np.inf, 3.5 * cell(r)])
            metric = ctx.choice(["euclidean", "taxicab", "chebyshev"])
            dp = ctx.chance(0.5)
            p, d, a = distance.proximity_analysis(r, tv, metric, md, dp)
            same(ctx, [p, a, d], [f(r, target_values=tv, max_distance=md, distance_metric=metric, double_precision=dp)
                                  for f in (distance.pa_proximity, distance.pa_allocation, distance.pa_direction)], k)
        elif kind == "quadrants":
            q = r.to_quadrants()
            same(ctx, [q.nw, q.ne, q.sw, q.se], [q[0], q[1], q[2], q[3]], k) if hasattr(q, "nw") else None
            ch = r.chunk((1, -(-m.shape[1] // 2), -(-m.shape[2] // 2)))
            pieces = ch.get_chunk_rasters()
            same(ctx, np.concatenate([np.concatenate([p.to_numpy() for p in row], 2) for row in pieces[0]], 1), r.to_numpy(), k + ":chunks")
        elif kind == "like":
            dt = ctx.choice([None, "int16", "float64"])
            bands = ctx.int(1, 3)
            kw = dict(bands=bands, dtype=dt, copy_mask=ctx.chance(0.5))
            same(ctx, creation.zeros_like(r, **kw), creation.full_like(r, 0, **kw), k)
            same(ctx, creation.ones_like(r, **kw), creation.constant_raster(r, 1, **kw), k)
        elif kind == "window":
            w, h = ctx.int(1, 5), ctx.int(1, 5)
            win = focal.get_focal_window(w, h)
            ctx.check(win.shape == (w, h), k, got=win.shape, want=(w, h))
            same(ctx, focal.get_focal_window((2, 4)), focal.get_focal_window([2, 4]), k)
            same(ctx, focal.focal(r, "mean", (1, 3)), focal.focal(r, "mean", [1, 3]), k)
        elif kind == "stats":
            st = ctx.choice(["mean", "max", "min", "sum", "median", "std", "var"])
            many = rts.band_concat([r, r + 1, r * 2])
            a = Obs(general.local_stats(many, st))
            red = getattr(np, "nan" + st)(np.where(np.stack([m.mask[0]] * 3), np.nan, np.stack([m.data[0].astype("f8"), m.data[0].astype("f8") + 1, m.data[0].astype("f8") * 2])), axis=0)
            v = ~a.mask[0]
            ctx.check(np.array_equal(v, ~m.mask[0]) and np.allclose(a.data[0][v], red[v], rtol=1e-5, atol=1e-5), k, got=a.data, want=red)
        elif kind == "wide":
            g = features(ctx, m)
            z = V.Vector(g)
            wide = zonal.zonal_stats(z, r, ["mean", "count"]).compute()
            tall = zonal.zonal_stats(z, r, ["mean", "count"], wide_format=False).compute()
            ctx.check(len(tall) == len(wide), k + ":rows", got=tall, want=wide)
            tall, wide = tall.sort_values("zone"), wide.sort_index()
            for s in ("mean", "count"):
                ctx.check(arrays_same(np.asarray(wide[("band_1", s)], "f8"), np.asarray(tall[s], "f8")), k, got=tall, want=wide)
        elif kind == "convolve":
            ker = ctx.rng.integers(-3, 4, (3, ctx.choice([3, 5]))).astype("f8")
            mode = ctx.choice(["constant", "reflect", "nearest", "wrap"])
            same(ctx, focal.convolve(r, ker, mode), focal.correlate(r, ker[::-1, ::-1], mode), k, rtol=1e-5)
            same(ctx, focal.correlate(r, ker, mode), focal.correlate(r, np.asfortranarray(ker), mode), k)
        else:
            a = surface.aspect(r)
            same(ctx, surface.northing(r), surface.northing(a, is_aspect=True), k)
            same(ctx, surface.easting(r), surface.easting(a, is_aspect=True), k)
            same(ctx, surface.hillshade(r), surface.hillshade(r, azimuth=315, altitude=45), k)
            same(ctx, surface.slope(r), surface.slope(r, True), k)
    ctx.count("parts")


def f_aliases(ctx):
    """Properties and conversions that name the same thing."""
    m, r = source(ctx, dtypes=gen.ALL_DTYPES, min_side=2, unburned=ctx.chance(0.2), crs=ctx.choice(["EPSG:5070", None]))
    ctx.describe(model=m.desc())
    ctx.note(m.data, m.mask, str(m.nv))
    ctx.interesting(m.mask.any() or m.shape[0] > 1)
    o = Obs(r)
    with sut(ctx), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        for name in ("_values", "values"):
            same(ctx, o.data, getattr(r, name), "aliases:" + name)
        same(ctx, o.data, r.to_numpy(), "aliases:to_numpy")
        same(ctx, o.data, np.asarray(r), "aliases:asarray")
        same(ctx, o.data.astype("f8"), np.asarray(r, dtype="f8"), "aliases:asarray_dtype")
        same(ctx, o.data, np.array(r), "aliases:array")
        for name in ("_data", "data"):
            same(ctx, o.data, getattr(r, name), "aliases:" + name)
        for name in ("_rs", "xrs", "xdata"):
            same(ctx, o.data, getattr(r, name).to_numpy(), "aliases:" + name)
        for name in ("_mask", "mask"):
            same(ctx, o.mask, getattr(r, name), "aliases:" + name)
        same(ctx, o.mask, r.xmask.to_numpy(), "aliases:xmask")
        same(ctx, o.mask, r.to_null_mask().to_numpy(), "aliases:to_null_mask")
        ctx.check(same_value(r._null_value, r.null_value), "aliases:null_value", got=r._null_value, want=r.null_value)
        if m.dtype.kind in "iuf" and m.dtype != np.dtype("float16"):
            px = r.pxrs.to_numpy()
            ctx.check(px.shape == m.shape and arrays_same(px[m.valid].astype("f8"), m.data[m.valid].astype("f8")), "aliases:pxrs", got=px, want=m.data)
            if m.nv is not None:
                ctx.check(np.isnan(px[m.mask].astype("f8")).all(), "aliases:pxrs_nulls", "null cells are not NaN", got=px, mask=m.mask)
        ds = r.to_dataset()
        same(ctx, o.data, ds.raster.to_numpy(), "aliases:to_dataset")
        same(ctx, o.mask, ds.mask.to_numpy(), "aliases:to_dataset")
        ctx.check(tuple(r.shape) == m.shape == tuple(ds.raster.shape) and r.nbands == m.shape[0] and r.size == m.data.size and r.dtype == m.dtype == ds.raster.dtype,
                  "aliases:shape", got=(r.shape, r.nbands, r.size, r.dtype))
        gb = r.geobox
        ctx.check(tuple(gb.shape) == m.shape[1:] and np.allclose(np.array(gb.affine), np.array(r.affine)), "aliases:geobox", got=gb, want=r.affine)
        ctx.check(crs_same(gb.crs, r.crs), "aliases:geobox_crs", got=gb.crs, want=r.crs)
        if min(m.shape[1:]) > 1:
            ctx.check(np.allclose(np.asarray(r.resolution), (r.affine.a, r.affine.e)) or np.allclose(np.abs(r.resolution), np.abs((r.affine.a, r.affine.e))), "aliases:resolution",
                      got=r.resolution, want=r.affine)
        xx, yy = r.xy(np.arange(m.shape[1]).repeat(m.shape[2]), np.tile(np.arange(m.shape[2]), m.shape[1]))
        ctx.check(np.allclose(np.asarray(xx).reshape(m.shape[1:]), m.x[None]) and np.allclose(np.asarray(yy).reshape(m.shape[1:]), m.y[:, None]), "aliases:xy", got=(xx, yy), want=(m.x, m.y))
        same(ctx, r, r.load(), "aliases:load")
        same(ctx, r, r.eval(), "aliases:eval")
        same(ctx, r, r.copy(), "aliases:copy")
        cx, cy = r.get_chunked_coords()
        ctx.check(np.array_equal(np.asarray(cx).ravel(), m.x) and np.array_equal(np.asarray(cy).ravel(), m.y), "aliases:chunked_coords")
    dep = {str(x.message).split("'")[1] for x in w if issubclass(x.category, DeprecationWarning) and "'" in str(x.message)}
    ctx.count("deprecations_seen", len(dep))
    ctx.count("aliases")


def crs_forms(code):
    c = pyproj.CRS(f"EPSG:{code}")
    return [f"EPSG:{code}", code, c, RCRS.from_epsg(code), c.to_wkt(), f"epsg:{code}"]


def f_spellings(ctx):
    kind = ctx.enum(["set_crs", "reproject", "astype", "scalars", "like_dtype", "sequences", "make_crs", "bands", "vector_crs", "null_value", "geobox", "aggregate", "focal"])
    m, r = source(ctx, shape=(ctx.int(1, 3), ctx.int(4, 10), ctx.int(4, 10)), kind="small")
    ctx.describe(kind=kind, model=m.desc())
    ctx.note(kind, m.data, m.mask)
    ctx.interesting(m.mask.any() or m.shape[0] > 1)
    k = "spellings:" + kind
    num = ctx.int(1, 9)
    forms = {
        "set_crs": lambda: [r.set_crs(c) for c in crs_forms(3857)],
        "reproject": lambda: [r.reproject(c) for c in crs_forms(3857)[:5]],
        "make_crs": lambda: [rts.data_to_raster(m.data, x=m.x, y=m.y, crs=c) for c in crs_forms(32611)],
        "astype": lambda: [r.astype(d, warn_about_null_change=False) for d in ("float32", np.float32, np.dtype("float32"), "f4")],
        "like_dtype": lambda: [creation.zeros_like(r, dtype=d) for d in ("int16", np.int16, np.dtype("int16"), "i2")],
        "scalars": lambda: [general.dilate(r, n) for n in (3, np.int64(3), np.uint8(3), (3, 3), [3, 3])],
        "aggregate": lambda: [general.aggregate(r, c, "max") for c in ((2, 1), [2, 1], np.array([2, 1]))],
        "focal": lambda: [focal.focal(r, "max", w, h) for w, h in ((3, 2), (np.int64(3), np.int8(2)))],
        "sequences": lambda: [r.get_bands(b) for b in ([1], (1,), np.array([1]), range(1, 2), 1)],
        "bands": lambda: [r.bandwise + b for b in ([num] * m.shape[0], (num,) * m.shape[0], np.full(m.shape[0], num))] if m.shape[0] > 1 else [r + num, num + r],
        "vector_crs": lambda: [V.Vector(gpd.GeoDataFrame({"k": [1]}, geometry=gpd.points_from_xy(m.x[:1], m.y[:1]), crs=m.crs)).to_crs(c)
                               for c in crs_forms(3857)[:5]],
        "null_value": lambda: [r.set_null_value(v) for v in (num, np.int64(num), np.int8(num))],
        "geobox": lambda: [creation.ones_like(g) for g in (r.geobox, GeoBox(r.shape[1:], r.affine, r.crs))],
    }
    with sut(ctx):
        out = forms[kind]()
        for o in out[1:]:
            same(ctx, out[0], o, k)
    ctx.count("spellings", len(out) - 1)


def f_refuse(ctx):
    """What is no raster, vector or path is refused by name, not used as something else."""
    m, r = source(ctx)
    g = features(ctx, m)
    calls = [lambda: general.dilate(m.data, 3), lambda: general.dilate(None, 3), lambda: general.dilate(f"{ctx.tmp}/none.tif", 3), lambda: clipping.clip("nothing.shp", r),
             lambda: clipping.clip(5, r), lambda: rasterize.rasterize(g, m.data), lambda: zonal.zonal_stats(V.Vector(g), 3, ["mean"]), lambda: rts.mosaic([]), lambda: V.get_vector(r),
             lambda: rts.get_raster(V.Vector(g)), lambda: r.set_null("no.tif"), lambda: rts.get_raster(g, strict=False), lambda: r.set_crs("no crs"), lambda: r.astype("no dtype")]
    i = ctx.index % len(calls)
    ctx.note(i)
    ctx.interesting()
    expect_raises(ctx, f"refuse:{i}", calls[i])
    ctx.count("refused")


FAMILIES = {
    "sources": (f_sources, 190, 3000),
    "methods": (f_methods, 120, 2000),
    "parts": (f_parts, 90, 1500),
    "aliases": (f_aliases, 80, 1200),
    "spellings": (f_spellings, 88, 1100),
    "refuse": (f_refuse, 14, 28),
}
