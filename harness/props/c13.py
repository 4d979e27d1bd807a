"""C13: points and polygons carry exactly the valid cells."""
import dask
import numpy as np
import shapely

from core import expect_raises
from gen import Obs, build, crs_same, model
from vec import cell_boxes, extent

PROP = "C13"
RULE = ("Random rasters (all dtypes, 1-3 bands, null patterns, stored values under nulls, anisotropic cells, chunk layouts down to one "
        "cell) converted to points and to polygons with both connectivities; every row is matched with a cell, every valid cell with a "
        "row, and the polygons' area, cells and disjointness are checked with shapely. Non-trivial: several chunks and nulls.")
DT = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "bool"]


def make(ctx, **kw):
    # single rows and columns carry no cell size
    m = model(ctx, dtypes=kw.pop("dtypes", DT), min_side=2, max_side=10, unburned=ctx.chance(0.3), **kw)
    return m, build(ctx, m)


def fam_points(ctx):
    m, r = make(ctx)
    before = Obs(r)
    v = r.to_vector() if ctx.chance(0.5) else r.to_points()
    ctx.check(dask.is_dask_collection(v), "points:lazy", got=type(v))
    df = v.compute()
    ctx.check(list(df.columns) == ["value", "band", "row", "col", "geometry"] and list(v.columns) == list(df.columns), "points:columns", got=list(df.columns))
    ctx.check(len(df) == int(m.valid.sum()), "points:count", "not one point per valid cell", got=len(df), want=int(m.valid.sum()))
    b, i, j = df.band.to_numpy() - 1, df.row.to_numpy(), df.col.to_numpy()
    nb, ny, nx = m.shape
    inside = (b >= 0) & (b < nb) & (i >= 0) & (i < ny) & (j >= 0) & (j < nx)
    ctx.check(inside.all(), "points:index", "a point has an impossible band, row or column", got=df[["band", "row", "col"]].values)
    ctx.check(len(set(zip(b.tolist(), i.tolist(), j.tolist()))) == len(df), "points:duplicates", "a cell has several points")
    ctx.check(m.valid[b, i, j].all(), "points:null_cell", "a null cell has a point")
    ctx.check(np.array_equal(df.value.to_numpy(), m.data[b, i, j], equal_nan=m.dtype.kind == "f"), "points:value", "a point has the wrong value",
              got=df.value.to_numpy(), want=m.data[b, i, j])
    gx, gy = df.geometry.x.to_numpy(), df.geometry.y.to_numpy()
    ctx.check(np.allclose(gx, m.x[j], rtol=1e-12, atol=1e-9) and np.allclose(gy, m.y[i], rtol=1e-12, atol=1e-9), "points:location",
              "a point is not at its cell's centre", got=np.c_[gx, gy], want=np.c_[m.x[j], m.y[i]])
    ctx.check(df.index.is_unique, "points:unique_index", got=df.index.tolist())
    ctx.check(crs_same(df.crs, m.crs), "points:crs", got=df.crs, want=m.crs)
    for c in df.columns[:-1]:
        if len(df):
            ctx.check(df[c].dtype == v[c].dtype, "points:dtype:" + c, "declared and computed column dtype differ", got=df[c].dtype, declared=v[c].dtype)
    if len(df):
        ctx.check(df.value.dtype == m.dtype, "points:value_dtype", got=df.value.dtype, want=m.dtype)
    after = Obs(r)
    ctx.check(np.array_equal(before.data, after.data, equal_nan=m.dtype.kind == "f") and np.array_equal(before.mask, after.mask), "points:input_changed")
    ctx.count("points", len(df))
    ctx.count("null_cells", m.mask.sum())
    ctx.interesting(max(len(c) for c in r.data.chunks[1:]) > 1 and m.mask.any())


def fam_polygons(ctx):
    # pandas cannot group by a float16 column: float16 polygons are refused
    m, r = make(ctx, dtypes=[d for d in DT if d != "float16"], kind="cat" if ctx.chance(0.8) else "ramp", max_bands=2)
    if m.dtype.kind == "f" and m.dtype.itemsize == 8 and ctx.chance(0.3):
        # neighbours that only differ in float64, and values beyond float32
        table = np.array([0.1, 0.1 + 1e-12, 1e300, -1e300, 1 / 3, np.float64(np.float32(1 / 3)), 16777217.0])
        table = np.array([t for t in table if not (m.nv is not None and t == m.nv)])
        m.data[m.valid] = table[ctx.rng.integers(0, len(table), m.valid.sum())]
        r = build(ctx, m)
        ctx.count("float64_values")
    elif m.dtype.kind in "iu" and ctx.chance(0.3):
        # the whole range of the dtype
        ii = np.iinfo(m.dtype)
        lo, hi = int(ii.min), int(ii.max)
        table = [lo, hi, hi - 1, lo + 1, int(ctx.rng.integers(lo, hi, dtype=m.dtype)), min(hi, 2**31 + 5), min(hi, 2**53 + 1)]
        table = np.array([t for t in table if not (m.nv is not None and t == m.nv)], m.dtype)
        m.data[m.valid] = table[ctx.rng.integers(0, len(table), m.valid.sum())]
        r = build(ctx, m)
        ctx.count("extreme_values")
    nb, ny, nx = m.shape
    nbr = ctx.choice([4, 8])
    before = Obs(r)
    ctx.describe(neighbors=nbr)
    ctx.note(nbr)
    v = r.to_vector(as_polygons=True, neighbors=nbr) if ctx.chance(0.5) else r.to_polygons(neighbors=nbr)
    ctx.check(dask.is_dask_collection(v), "polygons:lazy", got=type(v))
    df = v.compute()
    ctx.check(sorted(df.columns) == ["band", "geometry", "value"], "polygons:columns", got=list(df.columns))
    x0, y0, x1, y1, rx, ry = extent(m)
    boxes = cell_boxes(m)
    for b in range(nb):
        d = df[df.band == b + 1]
        vals = sorted(set(m.data[b][m.valid[b]].tolist()))
        ctx.check(sorted(set(d.value.tolist())) == vals, "polygons:values", "wrong set of values", band=b + 1, got=sorted(d.value.tolist()), want=vals)
        for val in vals:
            cells = (m.data[b] == val) & m.valid[b]
            gs = d[d.value == val].geometry.tolist()
            area = sum(g.area for g in gs)
            ctx.check(abs(area - cells.sum() * rx * ry) <= 1e-6 * rx * ry * max(1, cells.sum()), "polygons:area", "area differs from the cells' area",
                      value=val, got=area / (rx * ry), want=int(cells.sum()))
            g = shapely.union_all([shapely.make_valid(x) for x in gs])
            got = shapely.contains(g, shapely.centroid(boxes))
            ctx.check(np.array_equal(got, cells), "polygons:cells", "the polygons cover other cells", value=val, got=got.astype(int), want=cells.astype(int))
            ctx.count("polygon_values")
            ctx.count("polygon_cells", cells.sum())
    ctx.check(set(df.band.tolist()) <= set(range(1, nb + 1)), "polygons:bands", got=df.band.tolist())
    ctx.check(crs_same(df.crs, m.crs), "polygons:crs", got=df.crs, want=m.crs)
    if len(df):
        ctx.check(df.value.dtype == v.value.dtype == m.dtype, "polygons:dtype", "the values have another dtype than the raster", got=df.value.dtype,
                  declared=v.value.dtype, want=m.dtype)
    after = Obs(r)
    ctx.check(np.array_equal(before.data, after.data, equal_nan=m.dtype.kind == "f") and np.array_equal(before.mask, after.mask), "polygons:input_changed",
              "the raster changed", before=before.data, after=after.data)
    ctx.interesting(max(len(c) for c in r.data.chunks[1:]) > 1 and m.mask.any())
    ctx.count("neighbors:%d" % nbr)


def fam_refuse(ctx):
    m, r = make(ctx)
    bad = ctx.enum([3, 0, "4", None])
    ctx.note(str(bad))
    expect_raises(ctx, "accepted_bad_neighbors", lambda: r.to_polygons(neighbors=bad), ValueError, TypeError)


FAMILIES = {"points": (fam_points, 200, 4000), "polygons": (fam_polygons, 64, 1500), "refuse": (fam_refuse, 4, 4)}
REQUIRED = ["extreme_values", "float64_values", "points", "null_cells", "polygon_values", "polygon_cells", "neighbors:4", "neighbors:8"]
