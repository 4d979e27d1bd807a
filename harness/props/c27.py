"""C27: the line length raster measures the lines near each cell."""
import geopandas as gpd
import numpy as np
import shapely

from raster_tools import line_stats
from raster_tools.vector import Vector
from core import expect_raises
from gen import Obs, build, check_grid, check_wellformed, model
from vec import extent, partition

PROP = "C27"
RULE = ("1-10 random polylines, closed rings, multi-lines, axis-parallel, repeated, tiny and far-away lines with and without "
        "weights (integer, float, bool) over rasters of many chunk layouts and cell sizes; each cell is bracketed between the "
        "clipped length in the circle inscribed in the code's 16-gon and in the true circle (shapely, per cell and line); the same "
        "lines split, reordered, merged, repartitioned and rechunked must give the same raster. Non-trivial: several chunks.")


def lines(ctx, m, n=None):
    x0, y0, x1, y1, rx, ry = extent(m)
    w, h = x1 - x0, y1 - y0
    rng = ctx.rng
    out = []
    for _ in range(n or ctx.int(1, 10)):
        k = ctx.choice(["poly", "poly", "long", "ring", "multi", "axis", "tiny", "far", "same", "wiggle"])
        p = lambda q: np.column_stack([rng.uniform(x0 - 0.2 * w, x1 + 0.2 * w, q), rng.uniform(y0 - 0.2 * h, y1 + 0.2 * h, q)])  # noqa: E731
        if k == "poly":
            g = shapely.LineString(p(ctx.int(2, 6)))
        elif k == "long":
            g = shapely.LineString([(x0 - 3 * w, rng.uniform(y0, y1)), (x1 + 3 * w, rng.uniform(y0, y1))])
        elif k == "ring":
            q = p(4)  # simple: GEOS loses parts of the buffer of a closed line that crosses itself
            q = q[np.argsort(np.arctan2(*(q - q.mean(0)).T))]
            g = shapely.LineString(np.vstack([q, q[:1]]))
        elif k == "multi":
            g = shapely.MultiLineString([p(2), p(3)])
        elif k == "axis":
            y = ctx.choice([rng.uniform(y0, y1), m.y[ctx.int(0, m.y.size - 1)]])
            g = shapely.LineString([(x0 + 0.1 * w, y), (x1 - 0.13 * w, y)])
        elif k == "tiny":
            a = p(1)[0]
            g = shapely.LineString([a, a + [0.01 * rx, 0.02 * ry]])
        elif k == "far":
            g = shapely.LineString([(x1 + 50 * w, y1 + 50 * h), (x1 + 51 * w, y1 + 50 * h)])
        elif k == "same" and out:
            g = out[-1]
        else:
            t = np.linspace(0, 1, 40)
            g = shapely.LineString(np.column_stack([x0 + t * w, (y0 + y1) / 2 + 0.3 * h * np.sin(9 * t)]))
        out.append(g)
    return out


def bracket(m, geoms, weights, radius):
    """Lower and upper bounds of every cell."""
    X, Y = np.meshgrid(m.x, m.y)
    pts = shapely.points(X, Y)
    lo = np.zeros(X.shape)
    hi = np.zeros(X.shape)
    inner = shapely.buffer(pts, radius * np.cos(np.pi / 16) * 0.9999, quad_segs=64)
    outer = shapely.buffer(pts, radius / np.cos(np.pi / 256) * 1.0001, quad_segs=64)
    for g, w in zip(geoms, weights):
        a = shapely.length(shapely.intersection(inner, g)) * w
        b = shapely.length(shapely.intersection(outer, g)) * w
        lo += np.minimum(a, b)
        hi += np.maximum(a, b)
    return lo, hi


def scene(ctx):
    m = model(ctx, dtypes=["uint8", "int16", "float32", "float64"], min_side=2, max_side=9, max_bands=2, crs=ctx.choice(["EPSG:3857", "EPSG:32611"]))
    rx, ry = extent(m)[4:]
    radius = float(ctx.choice([0.4, 0.7, 1, 1.6, 2.5, 4]) * min(rx, ry))
    if radius > 6 * max(rx, ry):
        radius = 3.0 * min(rx, ry)
    # halos larger than the raster are not possible
    radius = min(radius, (m.x.size - 0.5) * rx, (m.y.size - 0.5) * ry)
    geoms = lines(ctx, m)
    gdf = gpd.GeoDataFrame({"w": np.round(ctx.rng.uniform(-2, 3, len(geoms)), 2), "k": ctx.rng.integers(0, 4, len(geoms)),
                            "flag": ctx.rng.random(len(geoms)) < 0.5}, geometry=geoms, crs=m.crs)
    return m, radius, gdf


def judge_form(ctx, o, m, key):
    check_wellformed(ctx, o, key + ":form", burned=False)
    check_grid(ctx, o, m, key + ":grid")
    ctx.check(o.data.shape[0] == 1 and o.data.dtype == "float32", key + ":shape", got=(o.data.shape, o.data.dtype))


def fam_bracket(ctx):
    m, radius, gdf = scene(ctx)
    like = build(ctx, m)
    field = ctx.choice([None, "w", "k", "flag"])
    n = ctx.int(1, max(1, min(4, len(gdf))))
    src = ctx.choice(["gdf", "vector", "dask"])
    v = {"gdf": lambda: gdf, "vector": lambda: Vector(gdf), "dask": lambda: partition(ctx, gdf, n)}[src]()
    ctx.note(radius, str(field), gdf.geometry.to_wkb().sum())
    ctx.describe(radius=radius, field=field, src=src, n=n, lines=gdf.geometry.to_wkt().tolist(), w=None if field is None else gdf[field].tolist())
    o = Obs(line_stats.length(v, like, radius, **({"weighting_field": field} if field else {})))
    judge_form(ctx, o, m, "bracket")
    wts = np.ones(len(gdf)) if field is None else gdf[field].astype(float).to_numpy()
    lo, hi = bracket(m, gdf.geometry, wts, radius)
    got = o.data[0].astype("f8")
    tol = 1e-4 * radius * (1 + np.abs(wts).sum() / len(wts)) + 1e-6 * np.maximum(np.abs(lo), np.abs(hi))
    bad = (got < lo - tol) | (got > hi + tol)
    ctx.check(not bad.any(), "bracket:values", "the length at a cell is impossible", cells=np.argwhere(bad)[:4], got=got, lo=lo, hi=hi)
    ctx.count("cells_bracketed", got.size)
    ctx.count("nonzero_cells", (got != 0).sum())
    ctx.count("weighted", field is not None)
    ctx.interesting(max(len(c) for c in like.data.chunks[1:]) > 1 and (got != 0).any())


def fam_same(ctx):
    m, radius, gdf = scene(ctx)
    field = ctx.choice([None, "w", "k"])
    kw = {"weighting_field": field} if field else {}
    ref = Obs(line_stats.length(gdf, build(ctx, m, chunks=((m.y.size,), (m.x.size,))), radius, **kw)).data
    how = ctx.enum(["split", "shuffle", "multi", "partition", "crs", "many"])
    g = gdf.copy()
    if how in ("split", "many"):
        rows = []
        for r in g.itertuples():
            for part in (r.geometry.geoms if r.geometry.geom_type.startswith("Multi") else [r.geometry]):
                c = np.asarray(part.coords)
                for a, b in zip(c[:-1], c[1:]):
                    k = ctx.int(1, 3) if how == "split" else 25
                    pts = a + (b - a) * np.linspace(0, 1, k + 1)[:, None]
                    rows += [(r.w, r.k, shapely.LineString(pts[i:i + 2])) for i in range(k)]
        g = gpd.GeoDataFrame({"w": [r[0] for r in rows], "k": [r[1] for r in rows]}, geometry=[r[2] for r in rows], crs=gdf.crs)
    if how in ("shuffle", "split"):
        g = g.iloc[ctx.rng.permutation(len(g))].reset_index(drop=True)
    if how == "multi" and field is None:
        flat = [p for x in g.geometry for p in (x.geoms if x.geom_type.startswith("Multi") else [x])]
        g = gpd.GeoDataFrame({"w": [1.0]}, geometry=[shapely.MultiLineString(flat)], crs=g.crs)
    n = ctx.int(1, max(1, min(4, len(g))))
    ctx.note(how, radius, str(field), gdf.geometry.to_wkb().sum())
    ctx.describe(how=how, radius=radius, field=field, n=n, lines=gdf.geometry.to_wkt().tolist())
    like = build(ctx, m)
    out = line_stats.length(partition(ctx, g, n), like, radius, **kw)
    got = Obs(out).data
    ctx.check(np.allclose(got, ref, rtol=1e-4, atol=2e-4 * radius), "same:" + how, "the length depends on splits, order, partitions or chunks", got=got, want=ref)
    ctx.count("variant:" + how)
    ctx.count("lines_in_variant", len(g))
    ctx.interesting()


def fam_refuse(ctx):
    m = model(ctx, dtype="float32", shape=(1, 4, 4), crs="EPSG:3857")
    like = build(ctx, m)
    ok = gpd.GeoDataFrame({"w": [1.0], "s": ["a"]}, geometry=[shapely.LineString([(m.x[0], m.y[0]), (m.x[-1], m.y[-1])])], crs=m.crs)
    poly = gpd.GeoDataFrame({"w": [1.0, 2.0]}, geometry=[ok.geometry[0], shapely.box(*extent(m)[:4])], crs=m.crs)
    nocrs = model(ctx, dtype="float32", shape=(1, 4, 4), crs=None)
    bad = ctx.enum([lambda: line_stats.length(poly, like, 1.0), lambda: line_stats.length(ok, like, 0), lambda: line_stats.length(ok, like, -2.0),
                    lambda: line_stats.length(ok, like, "a"), lambda: line_stats.length(ok, like, 1.0, weighting_field="nope"),
                    lambda: line_stats.length(ok, like, 1.0, weighting_field=3), lambda: line_stats.length(ok, build(ctx, nocrs), 1.0)])
    ctx.note(ctx.index)
    expect_raises(ctx, f"accepted_bad_argument:{ctx.index}", bad, ValueError, TypeError)


FAMILIES = {"bracket": (fam_bracket, 90, 1500), "same": (fam_same, 48, 720), "refuse": (fam_refuse, 7, 7)}
REQUIRED = ["cells_bracketed", "nonzero_cells", "weighted"] + ["variant:" + k for k in ("split", "shuffle", "multi", "partition", "crs", "many")]
