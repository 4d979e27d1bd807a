"""C15: clipping and masking keep exactly the requested cells."""
import geopandas as gpd
import numpy as np
import shapely

from raster_tools import clipping
from raster_tools.exceptions import RasterNoDataError
from raster_tools.vector import Vector
from core import expect_raises
from gen import Obs, build, check_wellformed, crs_same, model
from vec import cell_boxes, extent, partition, rand_geom, touch

PROP = "C15"
RULE = ("1-4 random polygons, rings, slivers and multipolygons (partly outside, in one or several partitions, sometimes in another CRS) "
        "and random boxes (snapped to cell edges, narrow, overhanging) applied to random rasters of every dtype, null pattern, stored "
        "value under nulls, grid and chunk layout with clip, erase, mask, envelope and clip_box; every kept cell is located by its coordinates in the "
        "input and judged with shapely (cells only grazed may go either way). Non-trivial: some cells are kept and some are removed.")
DT = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "bool"]


def make(ctx, **kw):
    kw.setdefault("crs", ctx.choice(["EPSG:3857", "EPSG:5070", "EPSG:32611"]))
    m = model(ctx, dtypes=DT, min_side=2, max_side=14, unburned=ctx.chance(0.25), **kw)
    return m, build(ctx, m)


def features(ctx, m, kinds=("box", "tri", "blob", "ring", "sliver", "multi")):
    ext = extent(m)
    n = ctx.int(1, 4)
    geoms = [rand_geom(ctx, ext, kinds, spread=0.15) for _ in range(n)]
    g = gpd.GeoDataFrame({"a": range(n)}, geometry=geoms, crs=m.crs)
    ctx.note([x.wkb_hex for x in geoms])
    ctx.describe(features=[x.wkt for x in geoms])
    return g, geoms


def grid_index(ctx, m, o, key):
    """Offsets of the result's cells in the input grid."""
    j = np.array([int(np.argmin(abs(m.x - v))) for v in o.x])
    i = np.array([int(np.argmin(abs(m.y - v))) for v in o.y])
    _, _, _, _, rx, ry = extent(m)
    ctx.check(np.all(abs(m.x[j] - o.x) < 1e-6 * rx) and np.all(abs(m.y[i] - o.y) < 1e-6 * ry), key + ":coords",
              "the result's cells are not at input cell centres", got=(o.x, o.y), want=(m.x, m.y))
    ctx.check(np.all(np.diff(i) == 1) and np.all(np.diff(j) == 1), key + ":coords_order", got=(i, j))
    return i, j


def box_span(m, bounds, grow=0):
    """(definite, possible) column and row ranges of the cells a box intersects."""
    x0, y0, x1, y1, rx, ry = extent(m)
    a, b, c, d = bounds
    a, c = a - grow * rx / 2, c + grow * rx / 2
    b, d = b - grow * ry / 2, d + grow * ry / 2
    e = 1e-6
    L, R = m.x - rx / 2, m.x + rx / 2
    B, T = m.y - ry / 2, m.y + ry / 2
    cols = (np.flatnonzero((L < c - e * rx) & (R > a + e * rx)), np.flatnonzero((L <= c + e * rx) & (R >= a - e * rx)))
    rows = (np.flatnonzero((B < d - e * ry) & (T > b + e * ry)), np.flatnonzero((B <= d + e * ry) & (T >= b - e * ry)))
    return rows, cols


def check_extent(ctx, m, i, j, bounds, key):
    """The result covers the cells the box intersects; thin boxes may be grown by half cells (documented auto expansion)."""
    rows, cols = box_span(m, bounds)
    thin = len(rows[0]) <= 1 or len(cols[0]) <= 1
    outer_r, outer_c = (box_span(m, bounds, 2) if thin else (rows, cols))
    ctx.count("thin_boxes", thin)
    for got, inner, outer, ax in ((i, rows[0], outer_r[1], "rows"), (j, cols[0], outer_c[1], "cols")):
        ctx.check(set(inner) <= set(got), key + ":missing_" + ax, "cells of the box are missing", got=got, want=inner, bounds=bounds)
        ctx.check(set(got) <= set(outer), key + ":extra_" + ax, "cells outside of the box were kept", got=got, want=outer, bounds=bounds)


def check_kept(ctx, m, o, i, j, keep, maybe, key):
    """Cells in keep are kept as they are, cells outside of maybe are null."""
    src = m.data[:, i][:, :, j]
    smask = m.mask[:, i][:, :, j]
    keep, maybe = keep[np.ix_(i, j)][None] & ~smask, maybe[np.ix_(i, j)][None] & ~smask
    ctx.check(o.data.dtype == m.dtype, key + ":dtype", got=o.data.dtype, want=m.dtype)
    ctx.check(not (o.mask & keep).any(), key + ":lost", "a requested valid cell became null", got=o.mask.astype(int), keep=keep.astype(int))
    ctx.check(not (~o.mask & ~maybe).any(), key + ":kept", "a cell that should be null is valid", got=o.mask.astype(int), maybe=maybe.astype(int))
    v = ~o.mask
    ctx.check(np.array_equal(o.data[v], src[v], equal_nan=m.dtype.kind == "f"), key + ":values", "kept cells changed", got=o.data, want=src)
    ctx.count("cells_compared", o.mask.size)
    ctx.interesting(keep.any() and (~maybe & ~smask).any())


def union_touch(m, geoms):
    d = np.zeros(m.shape[1:], bool)
    p = d.copy()
    for g in geoms:
        a, b = touch(m, g, True)
        d |= a
        p |= b
    return d, p


def clip_case(ctx, op):
    m, r = make(ctx)
    gdf, geoms = features(ctx, m)
    other = ctx.chance(0.2)
    if other:
        # The feature comes in another CRS. The oracle sees it as the library must: densely equal after the round trip
        there = gdf.to_crs("EPSG:4326")
        if not np.isfinite(there.total_bounds).all() or there.total_bounds[3] > 84:
            other = False
        else:
            gdf = there
            geoms = there.to_crs(m.crs).geometry.tolist()
    ctx.count("other_crs", other)
    v = Vector(partition(ctx, gdf)) if ctx.chance(0.7) else Vector(gdf)
    bounds = None
    if op in ("clip", "erase") and ctx.chance(0.35):
        bounds = rand_box(ctx, m)
        ctx.describe(bounds=bounds)
        ctx.count("own_bounds")
    ctx.describe(op=op)
    ctx.note(op, bounds, other)
    tb = shapely.total_bounds(geoms) if bounds is None else bounds
    inside = all(len(s[0]) > 0 for s in box_span(m, tb))
    invert = False
    try:
        if op == "mask":
            invert = ctx.chance(0.5)
            out = clipping.mask(v, r, invert=invert)
        elif op == "envelope":
            out = clipping.envelope(v, r)
        else:
            invert = op == "erase"
            out = getattr(clipping, op)(v, r, **({} if bounds is None else {"bounds": ctx.choice([tuple, list, np.array])(bounds)}))
    except Exception as e:
        if op == "mask" or inside:
            raise
        ctx.check(type(e).__name__ in ("RuntimeError", "RasterNoDataError", "OneDimensionalRaster"), "no_data:error", got=repr(e))
        ctx.count("refused_outside")
        return
    o = Obs(out)
    check_wellformed(ctx, o, burned=not m.unburned)
    ctx.check(crs_same(o.crs, m.crs), "crs", got=o.crs, want=m.crs)
    i, j = grid_index(ctx, m, o, op)
    if op == "mask":
        ctx.check(o.shape == m.shape, "mask:extent", got=o.shape, want=m.shape)
    else:
        check_extent(ctx, m, i, j, tb, op)
    d, p = union_touch(m, geoms)
    if op == "envelope":
        d = p = np.ones_like(d)
    if invert:
        d, p = ~p, ~d
    check_kept(ctx, m, o, i, j, d, p, op)
    if m.nv is not None and m.dtype.kind != "b":
        ctx.check(o.null == m.nv or (np.isnan(o.null) and np.isnan(m.nv)), op + ":null_value", "the null value changed", got=o.null, want=m.nv)
    ctx.count("op:" + op)
    ctx.count("multi_chunk", max(len(c) for c in r.data.chunks[1:]) > 1)


def rand_box(ctx, m):
    x0, y0, x1, y1, rx, ry = extent(m)
    style = ctx.choice(["free", "snap", "thin", "over"])
    out = []
    for lo, hi, res in ((x0, x1, rx), (y0, y1, ry)):
        if style == "snap":
            n = round((hi - lo) / res)
            a = ctx.int(0, n - 1)
            b = ctx.int(a + 1, n)
            p, q = lo + a * res, lo + b * res
        elif style == "thin":
            p = ctx.rng.uniform(lo, hi)
            q = p + ctx.rng.uniform(0.01, 2.5) * res
        elif style == "over":
            p, q = lo - ctx.rng.uniform(0, 0.5) * (hi - lo), lo + ctx.rng.uniform(0.1, 1.6) * (hi - lo)
        else:
            p, q = np.sort(ctx.rng.uniform(lo, hi, 2))
            q = max(q, p + 0.01 * res)
        out.append((float(p), float(q)))
    (a, c), (b, d) = out
    return (a, b, c, d)


def fam_clip(ctx):
    clip_case(ctx, "clip")


def fam_erase(ctx):
    clip_case(ctx, "erase")


def fam_mask(ctx):
    clip_case(ctx, "mask")


def fam_envelope(ctx):
    clip_case(ctx, "envelope")


def fam_box(ctx):
    m, r = make(ctx)
    b = rand_box(ctx, m)
    ctx.describe(bounds=b)
    ctx.note(b)
    rows, cols = box_span(m, b)
    inside = len(rows[0]) > 0 and len(cols[0]) > 0
    try:
        out = clipping.clip_box(r, ctx.choice([tuple, list, np.array])(b))
    except Exception as e:
        if inside:
            raise
        ctx.check(type(e).__name__ in ("RasterNoDataError", "OneDimensionalRaster"), "box:no_data", got=repr(e))
        ctx.count("refused_outside")
        return
    o = Obs(out)
    check_wellformed(ctx, o, burned=not m.unburned)
    i, j = grid_index(ctx, m, o, "box")
    check_extent(ctx, m, i, j, b, "box")
    ctx.check(o.null == m.nv or (o.null is not None and m.nv is not None and np.isnan(o.null) and np.isnan(m.nv)), "box:null_value", got=o.null, want=m.nv)
    src, sm = m.data[:, i][:, :, j], m.mask[:, i][:, :, j]
    ctx.check(np.array_equal(o.mask, sm), "box:mask", "null cells changed", got=o.mask.astype(int), want=sm.astype(int))
    ctx.check(o.data.dtype == m.dtype and np.array_equal(o.data[~sm], src[~sm], equal_nan=m.dtype.kind == "f"), "box:values", got=o.data, want=src)
    ctx.check(crs_same(o.crs, m.crs), "box:crs", got=o.crs, want=m.crs)
    ctx.interesting(o.data.size < m.data.size)
    ctx.count("cells_compared", o.mask.size)
    ctx.count("op:clip_box")


def fam_refuse(ctx):
    k = ctx.enum(["outside", "no_crs", "bad_bounds", "outside_feature", "bad_box"])
    ctx.note(k)
    m, r = make(ctx, **({"crs": None} if k == "no_crs" else {}))
    x0, y0, x1, y1, rx, ry = extent(m)
    w, h = x1 - x0 + 5 * rx, y1 - y0 + 5 * ry
    far = (x0 + 2 * w, y0 + 2 * h, x1 + 2 * w, y1 + 2 * h)
    v = Vector(gpd.GeoDataFrame(geometry=[shapely.box(*(far if k == "outside_feature" else (x0, y0, x1, y1)))], crs=m.crs or "EPSG:3857"))
    if k == "outside":
        expect_raises(ctx, "accepted_outside_box", lambda: clipping.clip_box(r, far), RasterNoDataError)
        expect_raises(ctx, "accepted_outside_bounds", lambda: clipping.clip(v, r, bounds=far), RuntimeError)
    elif k == "outside_feature":
        expect_raises(ctx, "accepted_outside_feature", lambda: clipping.clip(v, r), RuntimeError)
    elif k == "no_crs":
        expect_raises(ctx, "accepted_no_crs", lambda: clipping.clip(v, r), ValueError)
    elif k == "bad_bounds":
        expect_raises(ctx, "accepted_bad_bounds", lambda: clipping.erase(v, r, bounds=(1, 2, 3)), ValueError)
    else:
        expect_raises(ctx, "accepted_bad_box", lambda: clipping.clip_box(r, (1, 2, 3)), ValueError)


FAMILIES = {"clip": (fam_clip, 70, 1500), "erase": (fam_erase, 60, 1500), "mask": (fam_mask, 60, 1500), "envelope": (fam_envelope, 40, 1000),
            "box": (fam_box, 250, 6000), "refuse": (fam_refuse, 10, 10)}
REQUIRED = ["op:clip", "op:erase", "op:mask", "op:envelope", "op:clip_box", "own_bounds", "thin_boxes", "other_crs", "multi_chunk"]
