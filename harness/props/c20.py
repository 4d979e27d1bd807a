"""C20: zonal statistics and point extraction read exactly the right cells."""
import dask
import geopandas as gpd
import numpy as np
import pandas as pd
import shapely

from raster_tools import zonal
from raster_tools.vector import Vector
from core import expect_raises
from gen import build, model, rand_chunks
from vec import extent, partition, rand_geom, touch

PROP = "C20"
RULE = ("Random data rasters (all dtypes, null patterns, stored values under nulls, 1-3 bands, chunks of a few cells) summarised over "
        "zone rasters (with and without nulls) and over vector zones with every statistic, in wide and long form, with and without "
        "overlap handling; points inside, outside and in null cells. Every number is compared with a direct gather of the zone's "
        "valid cells. Non-trivial: nulls or several chunks.")
STATS = sorted(zonal.ZONAL_STAT_FUNCS)
DT = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64"]
CHUNKS = ["64B", "128B", "300B", "64MiB"]


def ref(vals, stat):
    """vals: the values of a zone's cells, NaN where null."""
    v = vals[~np.isnan(vals)]
    n = len(v)
    if stat == "size":
        return len(vals)
    if stat == "count":
        return n
    if stat == "sum":
        return v.sum()
    if stat == "prod":
        return v.prod()
    if stat == "nunique":
        return len(set(v.tolist()))
    if n == 0:
        return np.nan
    if stat in ("std", "var"):
        return getattr(v, stat)(ddof=1) if n > 1 else np.nan
    if stat in ("min", "max", "mean"):
        return getattr(v, stat)()
    if stat == "median":
        return np.median(v)
    u, c = np.unique(v, return_counts=True)
    if stat == "mode":
        return u[np.argmax(c)]
    p = c / n
    return (p * p).sum() if stat == "asm" else -(p * np.log(p)).sum()


def data_raster(ctx, **kw):
    m = model(ctx, dtypes=DT, min_side=2, max_side=11, kind=ctx.choice(["cat", "small", "small"]), unburned=ctx.chance(0.25), **kw)
    return m, build(ctx, m)


def values(m):
    z = m.data.astype("f8")
    z[m.mask] = np.nan
    return z


def pick_stats(ctx):
    first = ctx.enum(STATS)
    more = [s for s in STATS if s != first and ctx.rng.random() < 0.3]
    stats = [first] + more
    if ctx.chance(0.5):
        ctx.rng.shuffle(stats)
    for s in stats:
        ctx.count("stat:" + s)
    return stats


def compare(ctx, df, zones, z, stats, wide, key, dup=False):
    """zones: list of (id, boolean cells)."""
    nb = z.shape[0]
    ids = [i for i, _ in zones]
    if wide:
        ctx.check(list(df.columns) == [(f"band_{b+1}", s) for b in range(nb) for s in stats], key + ":columns", got=list(df.columns))
        ctx.check(sorted(df.index.tolist()) == sorted(ids), key + ":zones", "wrong set of zones", got=df.index.tolist(), want=ids)
    else:
        ctx.check(list(df.columns) == ["zone", "band", *stats], key + ":columns", got=list(df.columns))
        ctx.check(sorted(zip(df.zone.tolist(), df.band.tolist())) == sorted((i, b + 1) for i in ids for b in range(nb)), key + ":zones",
                  "wrong set of zones and bands", got=df[["zone", "band"]].values.tolist(), want=ids)
    for k, (i, cells) in enumerate(zones):
        for b in range(nb):
            for s in stats:
                want = ref(z[b][cells], s)
                if wide:
                    col = df[(f"band_{b+1}", s)]
                    got = float(col.iloc[k]) if dup else float(col.loc[i])
                else:
                    sel = df[(df.zone == i) & (df.band == b + 1)]
                    got = float(sel[s].iloc[0])
                tol = 1e-7 * max(1, np.nanmax(np.abs(z[b][cells]), initial=0)) if s in ("std",) else 1e-9 * max(1, np.nanmax(np.abs(z[b][cells]), initial=0) ** (2 if s == "var" else 1))
                ctx.check((np.isnan(got) and np.isnan(want)) or abs(got - want) <= tol + 1e-9 * abs(want), key + ":" + s,
                          "wrong statistic of a zone", zone=i, band=b + 1, got=got, want=want, cells=z[b][cells])
                ctx.count("values_compared")
                ctx.count("empty_zone_values", np.isnan(z[b][cells]).all())


def skip_prod(stats, z, zones):
    """Products of many cells overflow or lose bits: keep them exact."""
    big = max((np.nansum(np.log2(np.maximum(1, np.abs(z[b][c])))) for _, c in zones for b in range(z.shape[0])), default=0)
    return [s for s in stats if not (s == "prod" and big > 900)] or ["sum"]


def fam_raster(ctx):
    m, r = data_raster(ctx)
    shape = m.shape[1:]
    k = ctx.int(1, 6)
    zd = ctx.choice(["uint8", "int16", "int32", "int64", "uint16"])
    zm = model(ctx, dtype=zd, shape=(1, *shape), kind="cat", grid=(m.x, m.y), crs=m.crs, unburned=ctx.chance(0.3))
    lo = 0 if zd[0] == "u" else -1
    if ctx.chance(0.5):
        ids = np.sort(ctx.rng.choice(np.arange(lo, 100), k, replace=False))
        new = ids[(np.add.outer(np.arange(shape[0]) // 3, np.arange(shape[1]) // 3) % k)][None].astype(zd)
        if zm.nv is not None:
            new = np.where(new == zm.nv, np.asarray(101, zd), new)
            if not zm.unburned:
                new = np.where(zm.mask, np.asarray(zm.nv, zd), new)
        zm.data = new.astype(zd)
    zr = build(ctx, zm)
    stats = pick_stats(ctx)
    wide = ctx.chance(0.5)
    z = values(m)
    zones = [(int(i), (zm.data[0] == i) & ~zm.mask[0]) for i in np.unique(zm.data[0][~zm.mask[0]])]
    if not zones:
        ctx.count("no_zones")
        return  # dask cannot group an empty frame reliably
    stats = skip_prod(stats, z, zones)
    size = ctx.choice(CHUNKS)
    ctx.note(stats, wide, size)
    ctx.describe(stats=stats, wide=wide, chunk_size=size)
    ctx.interesting(m.mask.any() or zm.mask.any() or size != "64MiB")
    ctx.count("junk_under_null", (m.unburned and m.mask.any()) or (zm.unburned and zm.mask.any()))
    ctx.count("several_partitions", size == "64B")
    ctx.count("wide" if wide else "long")
    arg = stats[0] if len(stats) == 1 and ctx.chance(0.5) else (stats if ctx.chance(0.7) else tuple(stats))
    with dask.config.set({"array.chunk-size": size}):
        df = zonal.zonal_stats(zr, r, arg, **({} if wide and ctx.chance(0.5) else {"wide_format": wide}))
        ctx.check(dask.is_dask_collection(df), "raster:lazy", got=type(df))
        df = df.compute()
    compare(ctx, df, zones, z, stats, wide, "raster")


def solid(ctx, m, n, all_touched=True):
    """Features whose cells are beyond doubt, with those cells."""
    out = []
    for _ in range(40 * n):
        if len(out) == n:
            break
        g = rand_geom(ctx, extent(m), ("box", "tri", "blob", "ring", "multi", "line"))
        d, p = touch(m, g, all_touched)
        if np.array_equal(d, p):
            out.append((g, d))
    return out


def fam_vector(ctx):
    m, r = data_raster(ctx, crs="EPSG:3857")
    feats = solid(ctx, m, ctx.int(1, 5))
    if not feats:
        return
    n = len(feats)
    overlap = ctx.chance(0.4)
    field = ctx.choice(["id", None])
    ids = (ctx.rng.permutation(50)[:n] + 1).astype(ctx.choice(["int64", "int32", "uint8"]))
    gdf = gpd.GeoDataFrame({"id": ids, "w": 1.5}, geometry=[g for g, _ in feats], crs=m.crs)
    zid = ids.tolist() if field else [i + 1 for i in range(n)]
    z = values(m)
    if overlap:
        zones = [(i, c) for i, (_, c) in zip(zid, feats) if c.any()]
    else:
        lab = np.zeros(m.shape[1:], int)
        for i, (_, c) in zip(zid, feats):
            lab[c] = i
        zones = [(i, lab == i) for i in sorted(zid) if (lab == i).any()]
    if not zones or (overlap and len(zones) < n):
        return  # features without cells give no row; dask cannot concatenate empty frames reliably
    stats = skip_prod(pick_stats(ctx), z, zones)
    wide = ctx.chance(0.5) or overlap
    size = ctx.choice(CHUNKS)
    form = ctx.choice(["gdf", "vector", "dask", "spatial"])
    ctx.note(stats, wide, size, overlap, field, form, gdf.geometry.to_wkb().sum())
    ctx.describe(stats=stats, wide=wide, chunk_size=size, overlap=overlap, field=field, form=form, features=gdf.geometry.to_wkt().tolist(), ids=zid)
    src = {"gdf": lambda: gdf, "vector": lambda: Vector(gdf), "dask": lambda: partition(ctx, gdf),
           "spatial": lambda: Vector(partition(ctx, gdf)).calculate_spatial_partitions()}[form]()
    ctx.interesting(m.mask.any() or size != "64MiB")
    ctx.count("overlapping_features", n > 1 and (np.sum([c for _, c in feats], axis=0) > 1).any())
    ctx.count("handle_overlap", overlap)
    ctx.count("vector_zones", len(zones))
    with dask.config.set({"array.chunk-size": size}):
        kw = {"features_field": field, "wide_format": wide, "handle_overlap": overlap}
        # arguments with their documented defaults may be left out
        for k, v in {"features_field": None, "wide_format": True, "handle_overlap": False}.items():
            if kw[k] is v and ctx.chance(0.5):
                del kw[k]
        df = zonal.zonal_stats(src, r, stats, **kw).compute()
    # without a field a single feature's index is its label
    compare(ctx, df, zones, z, stats, wide, "overlap" if overlap else "vector", dup=overlap)


def fam_points(ctx):
    m, r = data_raster(ctx, crs=ctx.choice(["EPSG:3857", "EPSG:32611", None]))
    x0, y0, x1, y1, rx, ry = extent(m)
    nb, ny, nx = m.shape
    n = ctx.int(1, 25)
    rr, cc = ctx.rng.integers(-2, ny + 2, n), ctx.rng.integers(-2, nx + 2, n)
    fx, fy = ctx.rng.uniform(0.02, 0.98, n), ctx.rng.uniform(0.02, 0.98, n)
    if ctx.chance(0.2):
        rr, cc = np.clip(rr, 0, ny - 1), np.clip(cc, 0, nx - 1)
    gdf = gpd.GeoDataFrame({"k": np.arange(n)}, geometry=gpd.points_from_xy(x0 + (cc + fx) * rx, y1 - (rr + fy) * ry), crs=m.crs)
    reproject = m.crs == "EPSG:32611" and ctx.chance(0.6)
    if reproject:
        back = gdf.to_crs("EPSG:4326").to_crs(m.crs)
        dev = np.hypot(back.geometry.x - gdf.geometry.x, back.geometry.y - gdf.geometry.y).max()
        if dev > 1e-3 * min(rx, ry):
            reproject = False
        else:
            gdf = gdf.to_crs("EPSG:4326")
    inside = (rr >= 0) & (rr < ny) & (cc >= 0) & (cc < nx)
    z = values(m)
    want = np.full((nb, n), np.nan)
    want[:, inside] = z[:, rr[inside], cc[inside]]
    axis = ctx.choice([0, 1])
    name = ctx.choice(["extracted", "v"])
    src = ctx.choice([gdf, Vector(gdf), partition(ctx, gdf)])
    kw = {"skip_validation": False} if ctx.chance(0.3) else {}
    ctx.note(rr, cc, axis)
    ctx.describe(axis=axis, rows=rr, cols=cc, kind=type(src).__name__, crs=str(gdf.crs))
    ctx.interesting(m.mask.any() or not inside.all())
    ctx.count("points_outside", (~inside).sum())
    ctx.count("points_null", np.isnan(want[:, inside]).sum())
    ctx.count("points_valid", (~np.isnan(want)).sum())
    ctx.count("reprojected_points", reproject)
    df = zonal.extract_points_eager(src, r, column_name=name, axis=axis, **kw)
    ctx.check(dask.is_dask_collection(df), "points:lazy", got=type(df))
    df = df.compute()
    if axis == 0:
        ctx.check(list(df.columns) == ["band", name], "points:columns", got=list(df.columns))
        ctx.check(df.band.tolist() == np.repeat(np.arange(1, nb + 1), n).tolist(), "points:bands", got=df.band.tolist())
        ctx.check(df.index.tolist() == list(range(nb * n)), "points:index", got=df.index.tolist())
        got = df[name].to_numpy().reshape(nb, n)
    else:
        ctx.check(list(df.columns) == [f"{name}_{b}" for b in range(1, nb + 1)], "points:columns", got=list(df.columns))
        ctx.check(len(df) == n, "points:rows", got=len(df))
        got = df.to_numpy().T
    ctx.check(np.array_equal(got, want, equal_nan=True), "points:values", "a point got the wrong value", got=got, want=want)


def fam_refuse(ctx):
    m = model(ctx, dtype="float32", shape=(1, 5, 5), crs="EPSG:3857")
    r = build(ctx, m)
    gdf = gpd.GeoDataFrame({"id": [1]}, geometry=[shapely.box(*extent(m)[:4])], crs=m.crs)
    zm = model(ctx, dtype="int32", shape=(1, 5, 5), grid=(m.x, m.y), crs="EPSG:5070")
    zs = model(ctx, dtype="int32", shape=(1, 4, 5), grid=(m.x, m.y[:4]), crs=m.crs)
    z2 = model(ctx, dtype="int32", shape=(2, 5, 5), grid=(m.x, m.y), crs=m.crs)
    bad = ctx.enum([
        lambda: zonal.zonal_stats(r, r, ["sum"]),
        lambda: zonal.zonal_stats(build(ctx, zm), r, ["sum"]),
        lambda: zonal.zonal_stats(build(ctx, zs), r, ["sum"]),
        lambda: zonal.zonal_stats(build(ctx, z2), r, ["sum"]),
        lambda: zonal.zonal_stats(gdf, r, ["nope"]),
        lambda: zonal.zonal_stats(gdf, r, []),
        lambda: zonal.zonal_stats(gdf, r, "sum", features_field="nope"),
        lambda: zonal.extract_points_eager(gdf, r, skip_validation=False),
        lambda: zonal.extract_points_eager(gdf.centroid, r, column_name=""),
    ])
    ctx.note(ctx.index)
    expect_raises(ctx, f"accepted_bad_argument:{ctx.index}", bad, ValueError, TypeError, KeyError)


FAMILIES = {"raster": (fam_raster, 112, 1400), "vector": (fam_vector, 80, 1000), "points": (fam_points, 120, 2000), "refuse": (fam_refuse, 9, 9)}
REQUIRED = ["values_compared", "empty_zone_values", "junk_under_null", "several_partitions", "wide", "long", "overlapping_features", "handle_overlap",
            "vector_zones", "points_outside", "points_null", "points_valid", "reprojected_points"] + ["stat:" + s for s in STATS]
