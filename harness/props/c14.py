"""C14: rasterizing features burns the right feature in every cell."""
import dask_geopandas as dgpd
import geopandas as gpd
import numpy as np
import shapely

import raster_tools as rts
from raster_tools.rasterize import rasterize
from raster_tools.vector import Vector
from core import expect_raises
from gen import Obs, build, check_grid, check_wellformed, model, same_value
from vec import extent, partition, rand_geom, touch

PROP = "C14"
RULE = ("1-9 random overlapping polygons, rings, slivers, lines, points and multipolygons (some empty, missing or outside) in 1-5 "
        "partitions, with and without a spatial index, rasterized on 1-3 band rasters of many chunk layouts with every overlap "
        "rule, touch mode, field dtype and null value, and as masks; every cell is judged against the features that touch it "
        "according to shapely (cells a feature only grazes may go either way). Non-trivial: features overlap or cross chunks.")
FDT = ["int64", "int32", "uint8", "int16", "float64", "float32", "int8", "uint32", "uint16"]


def features(ctx, m, all_touched, dtype=None, n=None):
    ext = extent(m)
    n = n or ctx.int(1, 9)
    kinds = ("box", "tri", "blob", "ring", "sliver", "multi") + (("line", "point") if all_touched else ())
    geoms = [rand_geom(ctx, ext, kinds) for _ in range(n)]
    if ctx.chance(0.15):
        geoms[ctx.int(0, n - 1)] = ctx.choice([None, shapely.Polygon(), shapely.Point()])
    dtype = np.dtype(dtype or ctx.choice(FDT))
    vals = ctx.rng.integers(0 if dtype.kind == "u" else -9, 60, n).astype(dtype)
    if dtype.kind == "f":
        vals = (vals + np.asarray(0.25, dtype)).astype(dtype)
    return gpd.GeoDataFrame({"val": vals, "name": [f"n{i}" for i in range(n)]}, geometry=geoms, crs=m.crs)


def allowed(vals, D, P, method, fill):
    """Values a cell may hold when features D touch it and P may."""
    if method in ("min", "max"):
        num = {i: v for i, v in vals.items() if not np.isnan(v)}
        dn, pn = [num[i] for i in D if i in num], [num[i] for i in P if i in num]
        if dn:
            best = min(dn) if method == "min" else max(dn)
            ok = {v for v in pn if (v <= best if method == "min" else v >= best)}
        else:
            ok = set(pn)
            if any(i not in num for i in D):
                ok.add(np.nan)
            else:
                ok.add(fill)
                if any(i not in num for i in P):
                    ok.add(np.nan)
        return ok
    order = sorted(P, reverse=method == "last")
    ok = set()
    for i in order:
        ok.add(vals[i])
        if i in D:
            return ok
    ok.add(fill)
    return ok


def make(ctx):
    m = model(ctx, dtypes=["uint8", "int32", "float32", "float64"], min_side=2, max_side=12, crs="EPSG:3857", max_bands=2)
    return m, build(ctx, m)


def spatial(ctx, v):
    k = ctx.choice(["none", "calc", "flag"])
    ctx.count("spatial:" + k)
    if k == "calc":
        return v.calculate_spatial_partitions(), {}
    return v, {"use_spatial_aware": True} if k == "flag" else {}


def source(ctx, gdf, n=None):
    n = n or ctx.int(1, min(5, len(gdf)))
    ctx.count("multi_partition", n > 1)
    return Vector(partition(ctx, gdf, n)) if n > 1 or ctx.chance(0.5) else Vector(gdf)


def fam_values(ctx):
    m, like = make(ctx)
    at = ctx.chance(0.7)
    gdf = features(ctx, m, at)
    use_field = ctx.chance(0.75)
    method = ctx.enum(["first", "last", "min", "max"])
    kw = {}
    dt = gdf.val.dtype if use_field else np.dtype("int64")
    if ctx.chance(0.5):
        if dt.kind == "f":
            kw["null_value"] = ctx.choice([np.nan, -99.0, 200.0, 0.0])
        else:
            kw["null_value"] = ctx.choice([100, 90, 99])
    if use_field and dt.kind == "f" and method in ("min", "max") and ctx.chance(0.4):
        gdf.loc[ctx.rng.random(len(gdf)) < 0.4, "val"] = np.nan
        ctx.count("nan_values", gdf.val.isna().any())
    if not use_field and ctx.chance(0.3):
        gdf.index = np.sort(ctx.rng.choice(50, len(gdf), replace=False)) + 5
    v, skw = spatial(ctx, source(ctx, gdf))
    if "null_value" in kw:
        fill = kw["null_value"]
    elif use_field:
        fill = None  # the default of the dtype, read from the result
    else:
        fill = 0
    ctx.note(method, at, use_field, str(kw), gdf.geometry.to_wkb().sum() if gdf.geometry.notna().all() else str(gdf.geometry.tolist()))
    ctx.describe(method=method, all_touched=at, field=use_field, kw=kw, skw=skw, features=gdf.geometry.to_wkt().tolist(), vals=gdf.val.tolist(),
                 parts=v.data.npartitions)
    before = v.data.compute()
    fn = ctx.choice(["method", "function"])
    args = dict(field="val" if use_field else None, overlap_resolve_method=method, all_touched=at, **kw, **skw)
    out = v.to_raster(like, **args) if fn == "method" else rasterize(v, like, **args)
    o = Obs(out)
    check_wellformed(ctx, o, "values:form")
    check_grid(ctx, o, m, "values:grid")
    ctx.check(o.data.shape[0] == 1, "values:bands", got=o.data.shape)
    ctx.check(o.data.dtype == dt, "values:dtype", got=o.data.dtype, want=dt)
    if fill is None:
        fill = o.null
        ctx.check(fill is not None, "values:no_null_value")
    ctx.check(same_value(o.null, fill), "values:null_value", got=o.null, want=fill)
    vals = dict(enumerate((gdf.val if use_field else gdf.index.to_series() + 1).tolist()))
    tl = [touch(m, g, at) for g in gdf.geometry]
    D = np.array([t[0] for t in tl])
    P = np.array([t[1] for t in tl])
    cells = 0
    for i in range(m.y.size):
        for j in range(m.x.size):
            d, p = set(np.flatnonzero(D[:, i, j]).tolist()), set(np.flatnonzero(P[:, i, j]).tolist())
            ok = allowed(vals, d, p | d, method, fill)
            g = o.data[0, i, j].item()
            cells += len(ok) == 1
            ctx.check(any(same_value(g, x) for x in ok), f"values:{method}", "wrong feature in a cell", cell=(i, j), got=g, allowed=ok,
                      touching=[(k, vals[k]) for k in sorted(p)], data=o.data[0])
            ctx.check(bool(o.mask[0, i, j]) == same_value(g, fill) or any(same_value(x, fill) for x in vals.values()), "values:mask",
                      "null cells do not match the null value", cell=(i, j), got=g)
    over = (D.sum(0) > 1)
    ctx.count("overlap_cells", over.sum())
    ctx.count("decided_cells", cells)
    ctx.count("method:" + method)
    ctx.count("centre_rule", not at)
    ctx.interesting(over.any() or (D.any() and max(len(c) for c in like.data.chunks[1:]) > 1))
    after = v.data.compute()
    ctx.check(before.equals(after), "values:features_changed")


def fam_mask(ctx):
    m, like = make(ctx)
    at = ctx.chance(0.7)
    gdf = features(ctx, m, at)
    invert = ctx.chance(0.5)
    v, skw = spatial(ctx, source(ctx, gdf))
    kw = {}
    if ctx.chance(0.3):
        kw["null_value"] = ctx.choice([255, 7, -1])
    ctx.note("mask", invert, at, str(kw), str(gdf.geometry.tolist()))
    ctx.describe(invert=invert, all_touched=at, kw=kw, skw=skw, features=[str(g) for g in gdf.geometry], parts=v.data.npartitions)
    o = Obs(v.to_raster(like, mask=True, mask_invert=invert, all_touched=at, **kw, **skw))
    check_wellformed(ctx, o, "mask:form", burned=not kw)
    check_grid(ctx, o, m, "mask:grid")
    tl = [touch(m, g, at) for g in gdf.geometry]
    D, P = np.any([t[0] for t in tl], axis=0), np.any([t[1] for t in tl], axis=0)
    ctx.check(o.data.shape[0] == 1, "mask:bands", got=o.data.shape)
    got = ~o.mask[0]  # the marked cells
    if invert:
        got = ~got
    ctx.check(got[D].all() and not got[~P].any(), "mask:cells", "wrong cells are marked", got=got.astype(int), want=D.astype(int))
    ctx.check((o.data[0][~o.mask[0]] == 1).all(), "mask:values", got=o.data)
    ctx.count("mask_invert" if invert else "mask_plain")
    ctx.count("decided_cells", (D | ~P).sum())
    ctx.interesting(D.any())


def fam_same(ctx):
    """The same features give the same raster however partitioned, indexed, chunked, or used before."""
    m, like = make(ctx)
    at = ctx.chance(0.6)
    gdf = features(ctx, m, at, n=ctx.int(3, 9))
    method = ctx.choice(["first", "last", "min", "max"])
    mask = ctx.chance(0.25)
    kw = dict(mask=True) if mask else dict(field="val", overlap_resolve_method=method)
    ctx.note("same", method, mask, at, str(gdf.geometry.tolist()))
    ctx.describe(kw=kw, at=at, features=[str(g) for g in gdf.geometry])
    ref = Obs(Vector(gdf).to_raster(build(ctx, m, chunks=((m.y.size,), (m.x.size,))), all_touched=at, **kw))
    lines = any(g is not None and g.geom_type in ("LineString", "Point") for g in gdf.geometry)
    P = [touch(m, g, at) for g in gdf.geometry]
    firm = ~np.any([p[1] & ~p[0] for p in P], axis=0)
    v = source(ctx, gdf)
    for _ in range(2):
        # using the features for another raster first must not matter
        if ctx.chance(0.5):
            sub = like.get_bands(1)
            other = rts.data_to_raster(np.zeros((1, 2, 2)), x=m.x[:2] + 1000 * extent(m)[4], y=m.y[:2], crs=m.crs)
            Obs(v.to_raster(other, all_touched=at, **kw))
            ctx.count("reused_features")
        vv, skw = spatial(ctx, v)
        o = Obs(vv.to_raster(build(ctx, m), all_touched=at, **skw, **kw))
        ctx.check(np.array_equal(o.data[0][firm], ref.data[0][firm], equal_nan=o.data.dtype.kind == "f") and np.array_equal(o.mask[0][firm], ref.mask[0][firm]),
                  "same", "the raster depends on partitions, index or chunks", got=o.data, want=ref.data)
        ctx.count("compared_layouts")
    if ctx.chance(0.4) and method in ("min", "max") and len(gdf) > 1 and gdf.geometry.notna().all() and not gdf.geometry.is_empty.any():
        o = Obs(v.spatial_shuffle().to_raster(like, all_touched=at, **kw))
        ctx.check(np.array_equal(o.data[0][firm], ref.data[0][firm], equal_nan=o.data.dtype.kind == "f"), "same:shuffled", got=o.data, want=ref.data)
        ctx.count("shuffled")
    ctx.interesting()


def fam_refuse(ctx):
    m, like = make(ctx)
    gdf = features(ctx, m, True, n=2)
    bad = ctx.enum([dict(field="nope"), dict(field="name"), dict(field=3), dict(field="val", overlap_resolve_method="middle"), dict(field="val", null_value="x")])
    ctx.note(str(bad))
    expect_raises(ctx, "accepted_bad_argument", lambda: Vector(gdf).to_raster(like, **bad), ValueError, TypeError)


FAMILIES = {"values": (fam_values, 120, 2400), "mask": (fam_mask, 60, 1200), "same": (fam_same, 40, 800), "refuse": (fam_refuse, 5, 5)}
REQUIRED = ["overlap_cells", "decided_cells", "multi_partition", "spatial:none", "spatial:calc", "spatial:flag", "mask_invert", "mask_plain",
            "reused_features", "compared_layouts", "centre_rule"] + ["method:" + k for k in ("first", "last", "min", "max")]
