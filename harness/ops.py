"""Catalogue of public operations, used by the cross-cutting checks C03-C06.

An entry is a generator f(ctx, t) -> (args, call): `t` is the metadata of the
first input raster (a Meta), `args` the plain Python arguments (lists, dicts,
arrays, feature frames: everything a user could hold on to), and
call(rasters, args) performs the operation on the real code.
"""
import operator

import dask
import dask.array as da
import dask.dataframe as dd
import geopandas as gpd
import numpy as np
import pandas as pd
import raster_tools as rts
import shapely
from raster_tools import clipping, creation, focal, general, line_stats, rasterize, surface, zonal
from raster_tools.raster import Raster

import gen

OPS = {}


class Meta:
    """What a caller knows about a raster without computing it."""

    def __init__(self, shape, dtype, nv, x, y, crs):
        self.shape, self.dtype, self.nv, self.x, self.y, self.crs = shape, np.dtype(dtype), nv, x, y, crs
        self.rx = float(x[1] - x[0]) if len(x) > 1 else 1.0
        self.ry = float(y[0] - y[1]) if len(y) > 1 else 1.0

    @classmethod
    def of(cls, r):
        return cls(r.shape, r.dtype, r.null_value, np.asarray(r.x), np.asarray(r.y), r.crs)

    @classmethod
    def model(cls, m):
        return cls(m.shape, m.dtype, m.nv, m.x, m.y, m.crs)

    @property
    def bounds(self):
        return (self.x[0] - self.rx / 2, self.y[-1] - self.ry / 2, self.x[-1] + self.rx / 2, self.y[0] + self.ry / 2)


class Op:
    def __init__(self, name, f, n, lazy, grid, pre, need, inv, rtol, group, frame):
        self.name, self.f, self.n, self.lazy, self.grid = name, f, n, lazy, grid
        self.pre, self.need, self.inv, self.rtol, self.group, self.frame = pre or (lambda t: True), need or {}, inv, rtol, group, frame


def op(name, n=1, lazy=True, grid=True, pre=None, need=None, inv=True, rtol=0.0, group="raster", frame=False, max_blocks=None):
    """lazy: building the result reads nothing; grid: the result is on the input's grid;
    inv: the result does not depend on the chunk layout (by definition)."""

    def deco(f):
        assert name not in OPS, name
        OPS[name] = Op(name, f, n, lazy, grid, pre, need, inv, rtol, group, frame)
        OPS[name].max_blocks = max_blocks
        return f

    return deco


def crs_ok(t):
    return t.crs is not None


def side(k):
    return lambda t: t.shape[1] >= k and t.shape[2] >= k


def all_of(*fs):
    return lambda t: all(f(t) for f in fs)


def notbool(t):
    return t.dtype.kind != "b" and t.dtype.itemsize > 0 and t.dtype != np.dtype("float16")


def square(t):
    return np.isclose(t.rx, t.ry)


def isint(t):
    return t.dtype.kind in "iu"


# ------------------------------------------------------------ raster methods

def lit(ctx, t):
    return ctx.choice([1, 2, 3, 5]) if t.dtype.kind in "iub" else ctx.choice([1, 2, 0.5, 3.25])


@op("scalar_arith", pre=notbool)
def _(ctx, t):
    f = ctx.choice([operator.add, operator.sub, operator.mul, operator.truediv, operator.floordiv, operator.mod])
    rev = ctx.chance(0.3) and f not in (operator.truediv, operator.floordiv, operator.mod)
    return {"c": lit(ctx, t), "rev": rev, "f": f}, lambda rs, a: a["f"](a["c"], rs[0]) if a["rev"] else a["f"](rs[0], a["c"])


@op("raster_arith", n=2, pre=notbool)
def _(ctx, t):
    f = ctx.choice([operator.add, operator.sub, operator.mul, operator.truediv, operator.lt, operator.ge, operator.eq, operator.ne, np.maximum, np.minimum, np.hypot, np.arctan2, np.logical_and, np.equal])
    return {"f": f}, lambda rs, a: a["f"](rs[0], rs[1])


@op("array_arith", pre=notbool)
def _(ctx, t):
    arr = ctx.rng.integers(1, 5, t.shape[1:]).astype(ctx.choice(["int16", "float32", "uint8"]))
    arr = arr if ctx.chance(0.5) else np.broadcast_to(arr, t.shape).copy()
    return {"arr": arr, "f": ctx.choice([operator.add, operator.mul, operator.lt])}, lambda rs, a: a["f"](rs[0], a["arr"])


@op("bandwise", pre=all_of(notbool, lambda t: t.shape[0] > 1 and t.shape[2] not in (1, t.shape[0])))
def _(ctx, t):
    v = [lit(ctx, t) for _ in range(t.shape[0])]
    v = ctx.choice([list, tuple, np.array])(v)
    return {"v": v, "f": ctx.choice([operator.add, operator.mul, operator.gt])}, lambda rs, a: a["f"](rs[0].bandwise, a["v"])


@op("bitwise", n=2, pre=lambda t: t.dtype.kind in "iub", need={"dtypes": gen.INT_DTYPES, "second": "dtype"})
def _(ctx, t):
    return {"f": ctx.choice([operator.and_, operator.or_, operator.xor])}, lambda rs, a: a["f"](rs[0], rs[1])


@op("unary", pre=notbool)
def _(ctx, t):
    fs = [abs, operator.pos, np.square, np.isnan, np.isfinite, np.sign, np.logical_not] + ([operator.invert] if t.dtype.kind in "iu" else [np.floor, np.sqrt, np.exp2, np.cbrt]) + (
        [operator.neg] if t.dtype.kind != "u" else [])
    return {"f": ctx.choice(fs)}, lambda rs, a: a["f"](rs[0])


@op("multi_out", pre=lambda t: t.dtype.kind == "f" and notbool(t), need={"dtypes": gen.FLOAT_DTYPES})
def _(ctx, t):
    f = ctx.choice([np.modf, np.frexp, lambda r: np.divmod(r, 3)])
    return {"f": f}, lambda rs, a: list(a["f"](rs[0]))


@op("inplace", pre=notbool)
def _(ctx, t):
    f = ctx.choice([operator.iadd, operator.isub, operator.imul])

    def call(rs, a):
        r = rs[0].copy()
        keep = r
        r = a["f"](r, a["c"])
        return [r, keep]

    return {"f": f, "c": 2}, call


@op("round", pre=notbool)
def _(ctx, t):
    return {"d": ctx.choice([0, 1, -1])}, lambda rs, a: rs[0].round(a["d"])


@op("reductions", pre=notbool, rtol=1e-4, group="scalar")
def _(ctx, t):
    names = [str(k) for k in ctx.rng.choice(["min", "max", "sum", "mean", "std", "var", "all", "any"], 3, replace=False)]
    return {"names": names}, lambda rs, a: [getattr(rs[0], k)() for k in a["names"]]


@op("astype")
def _(ctx, t):
    d = ctx.choice(["int16", "int32", "float32", "float64", "uint8", "bool", "int64"])
    return {"d": d}, lambda rs, a: rs[0].astype(a["d"], warn_about_null_change=False)


@op("set_null_value", pre=notbool)
def _(ctx, t):
    v = ctx.choice([1, 7, 99, None] if isint(t) else [1, -9999, np.nan, None, 0.5])
    return {"v": v}, lambda rs, a: rs[0].set_null_value(a["v"])


@op("set_null", n=2, pre=notbool, need={"second": "mask"})
def _(ctx, t):
    return {}, lambda rs, a: rs[0].set_null(rs[1] > 1)


@op("replace_null", pre=notbool)
def _(ctx, t):
    return {"v": ctx.choice([0, 1, 55])}, lambda rs, a: rs[0].replace_null(a["v"])


@op("to_null_mask")
def _(ctx, t):
    return {}, lambda rs, a: rs[0].to_null_mask()


@op("burn_mask")
def _(ctx, t):
    return {}, lambda rs, a: rs[0].burn_mask()


@op("set_crs", grid=False)
def _(ctx, t):
    return {"c": ctx.choice(["EPSG:3857", 5070, "EPSG:32611"])}, lambda rs, a: rs[0].set_crs(a["c"])


@op("where_method", n=2, pre=notbool)
def _(ctx, t):
    o = ctx.choice(["raster", "scalar", "none"])
    if o == "raster":
        return {}, lambda rs, a: rs[0].where(rs[1] > 1, rs[1])
    if o == "none":
        return {}, lambda rs, a: rs[0].where(rs[0] > 1, None)
    return {"o": 4}, lambda rs, a: rs[0].where(rs[1] > 1, a["o"])


@op("where", n=2, pre=notbool)
def _(ctx, t):
    return {"t": ctx.choice([1, 2])}, lambda rs, a: general.where(rs[0] > a["t"], rs[1], rs[0])


@op("remap_range", pre=notbool)
def _(ctx, t):
    mp = [(0, 2, 1), (2, 10, ctx.choice([7, None])), (10, 60, 9)]
    if t.dtype.kind != "u":
        mp.append((-40, 0, 3))
    mp = ctx.choice([list(mp), [list(x) for x in mp], mp[0]])
    return {"m": mp, "inc": ctx.choice(["left", "right", "both", "none"])}, lambda rs, a: (
        rs[0].remap_range(a["m"], a["inc"]) if ctx.index % 2 else rts.remap_range(rs[0], a["m"], a["inc"]))


@op("reclassify", pre=notbool, need={"kind": "cat"})
def _(ctx, t):
    mp = {0: 5, 1: ctx.choice([None, 6]), 2: 0}
    if t.dtype.kind == "f" and ctx.chance(0.3):
        mp = {0.0: 1.5, 2.0: -3.0}
    return {"m": mp, "u": ctx.chance(0.5)}, lambda rs, a: rs[0].reclassify(a["m"], unmapped_to_null=a["u"])


@op("get_bands", grid="bands")
def _(ctx, t):
    nb = t.shape[0]
    b = [ctx.int(1, nb) for _ in range(ctx.int(1, 3))]
    b = ctx.choice([b, tuple(b), b[0], np.array(b)])
    return {"b": b}, lambda rs, a: rs[0].get_bands(a["b"])


@op("split_bands", grid="bands")
def _(ctx, t):
    return {}, lambda rs, a: list(rs[0].split_bands())


@op("chunk")
def _(ctx, t):
    c = (1, ctx.int(1, t.shape[1]), ctx.int(1, t.shape[2]))
    return {"c": c}, lambda rs, a: rs[0].chunk(a["c"])


@op("copy")
def _(ctx, t):
    return {}, lambda rs, a: [rs[0].copy(), Raster(rs[0]), rts.get_raster(rs[0])]


@op("load", lazy=False)
def _(ctx, t):
    return {}, lambda rs, a: rs[0].load()


@op("null_to_nan", pre=notbool)
def _(ctx, t):
    return {}, lambda rs, a: rts.get_raster(rs[0], null_to_nan=True)


@op("pad", grid="pad", pre=all_of(notbool, side(2)))
def _(ctx, t):
    b = t.bounds
    tgt = (b[0] - ctx.int(0, 3) * t.rx, b[1] - ctx.int(0, 3) * t.ry, b[2] + ctx.int(0, 3) * t.rx, b[3] + ctx.int(0, 2) * t.ry)
    fv = ctx.choice([None, 1, [2] * t.shape[0]])
    return {"t": tgt, "f": fv}, lambda rs, a: rs[0].pad(a["t"], fill_values=a["f"])


@op("reproject", grid="reproject", pre=all_of(crs_ok, notbool, side(2)), need={"crs": "EPSG:5070", "square": True})
def _(ctx, t):
    how = ctx.choice(["res", "crs"])
    if how == "res":
        return {"res": t.rx * ctx.choice([0.5, 2.0, 1.5]), "m": ctx.choice(["nearest", "nearest", "average", "max", "mode"])}, lambda rs, a: rs[0].reproject(resolution=a["res"], resample_method=a["m"])
    return {"crs": "EPSG:4326"}, lambda rs, a: rs[0].reproject(a["crs"])


@op("to_quadrants", grid="part", pre=side(4))
def _(ctx, t):
    return {}, lambda rs, a: list(rs[0].to_quadrants())


@op("get_chunk_rasters", grid="part", inv=False, pre=side(2))
def _(ctx, t):
    return {}, lambda rs, a: list(rs[0].get_chunk_rasters().ravel())


@op("xy_index", lazy=True, group="scalar", pre=side(2))
def _(ctx, t):
    return {"r": [0, t.shape[1] - 1], "c": [0, t.shape[2] - 1]}, lambda rs, a: [np.array([rs[0].xy(i, j) for i, j in zip(a["r"], a["c"])]), np.array([rs[0].index(x, y) for x, y in zip(t.x[:2], t.y[:2])]), np.array(rs[0].bounds)]


@op("to_points", frame=True, group="frame", pre=all_of(notbool, side(2)))
def _(ctx, t):
    return {}, lambda rs, a: rs[0].to_points()


@op("to_polygons", frame=True, inv=False, group="frame", pre=lambda t: t.dtype in (np.dtype("int16"), np.dtype("int32"), np.dtype("uint8"), np.dtype("float32")) and side(3)(t),
    need={"dtypes": ["int16", "int32", "uint8", "float32"], "kind": "cat"})
def _(ctx, t):
    return {"n": ctx.choice([4, 8])}, lambda rs, a: rs[0].to_polygons(a["n"])


# ------------------------------------------------------------ blocks

@op("map_blocks", n=2, group="blocks", pre=notbool)
def _(ctx, t):
    k = ctx.choice(["one", "two", "mask"])
    c = ctx.choice([1.5, 2.0])
    if k == "one":
        return {"c": c}, lambda rs, a: rts.map_blocks(lambda x, c: (x * c).astype("f8"), rs[0], c=a["c"], dtype="f8", null_value=-1.0)
    if k == "two":
        return {}, lambda rs, a: rts.map_blocks(lambda x, y: x.astype("f8") + y, rs[0], rs[1], dtype="f8", null_value=-1.0)
    return {}, lambda rs, a: rts.map_blocks(lambda x, input_masks: (np.where(input_masks[0], -1.0, x.astype("f8")), input_masks[0]), rs[0], dtype="f8", null_value=-1.0, return_mask=True)


def _box(x):
    p = np.zeros(x.shape, "f8")
    for dy in (-1, 0, 1):
        for dx in (-1, 0, 1):
            p += np.roll(np.roll(x.astype("f8"), dy, 1), dx, 2)
    return p


@op("map_overlap", group="blocks", pre=all_of(notbool, side(5)), need={"min_side": 5, "nulls": False})
def _(ctx, t):
    b = ctx.choice(["reflect", "nearest", 0, "periodic"])
    dep = ctx.choice([1, {"y": 1, "x": 2}, (1, 1), 2])
    if isinstance(dep, dict):
        dep = ctx.choice([1, 2])
    return {"b": b, "d": dep}, lambda rs, a: rts.map_overlap(_box, rs[0], depth=a["d"], boundary=a["b"], dtype="f8", null_value=-1.0)


@op("geo_map_blocks", group="blocks", pre=all_of(notbool, side(2)))
def _(ctx, t):
    def f(x, block_info=None, geo_block_info=None, **kw):
        return x.astype("f8")

    return {}, lambda rs, a: rts.geo_map_blocks(f, rs[0], dtype="f8", null_value=-1.0)


@op("geo_map_overlap", group="blocks", pre=all_of(notbool, side(5)), need={"min_side": 5, "nulls": False})
def _(ctx, t):
    return {}, lambda rs, a: rts.geo_map_overlap(lambda x, geo_block_info=None: _box(x), rs[0], depth=1, boundary="nearest", dtype="f8", null_value=-1.0)


# ------------------------------------------------------------ neighbourhoods

@op("focal", group="focal", rtol=1e-9, pre=all_of(notbool, side(3)), need={"min_side": 3})
def _(ctx, t):
    st = ctx.choice(["mean", "median", "min", "max", "mode", "sum", "std", "var", "range", "unique", "entropy", "asm"])
    w = ctx.choice([(1,), (2,), (3, 3), (2, 3), ((1, 2),), (3, 1)])
    w = [x for x in w]
    if st == "range":
        st = "max"
    return {"st": st, "w": w, "ig": ctx.chance(0.4)}, lambda rs, a: focal.focal(rs[0], a["st"], *a["w"], ignore_null=a["ig"])


@op("correlate", group="focal", rtol=1e-9, pre=all_of(notbool, side(3)), need={"min_side": 3})
def _(ctx, t):
    k = ctx.rng.integers(-2, 4, ctx.choice([(3, 3), (1, 3), (3, 1), (2, 2)])).astype("f8")
    f = ctx.choice([focal.correlate, focal.convolve])
    return {"k": k, "m": ctx.choice(["constant", "nearest", "reflect"])}, lambda rs, a: f(rs[0], a["k"], mode=a["m"])


@op("regions", group="general", lazy=True, max_blocks=6, pre=notbool, need={"kind": "cat"})
def _(ctx, t):
    uv = ctx.choice([None, [1], [1, 2], (2,)])
    return {"n": ctx.choice([4, 8]), "u": uv}, lambda rs, a: general.regions(rs[0], a["n"], a["u"])


@op("dilate", group="general", pre=all_of(notbool, side(3)), need={"min_side": 3})
def _(ctx, t):
    s = ctx.choice([3, (3, 3), (1, 3), 2])
    f = ctx.choice([general.dilate, general.erode])
    return {"s": s}, lambda rs, a: f(rs[0], a["s"])


@op("aggregate", group="general", grid="coarse", rtol=1e-9, pre=all_of(notbool, side(4)), need={"min_side": 4})
def _(ctx, t):
    return {"f": ctx.choice([(2, 2), (2, 3), (1, 2), (3, 3)]), "st": ctx.choice(["mean", "sum", "max", "min", "mode", "median", "unique", "std", "entropy"])}, lambda rs, a: general.aggregate(rs[0], a["f"], a["st"])


@op("local_stats", group="general", grid="bands", rtol=1e-9, pre=notbool)
def _(ctx, t):
    return {"st": ctx.choice(["mean", "std", "max", "min", "maxband", "minband", "prod", "sum", "mode", "median", "unique", "entropy", "asm"])}, lambda rs, a: general.local_stats(rs[0], a["st"])


@op("band_concat", n=2, group="general", grid="bands")
def _(ctx, t):
    f = ctx.choice(["band_concat", "stack"])
    if f == "stack" and t.crs is not None and min(t.shape[1:]) > 1 and notbool(t):
        return {"w": [0, 1]}, lambda rs, a: rts.stack_bands([rs[i] for i in a["w"]])
    return {"w": [0, 1, 0]}, lambda rs, a: rts.band_concat([rs[i] for i in a["w"]])


class _Model:
    def predict(self, x):
        return np.asarray(x).astype("f8").sum(axis=1, keepdims=True) * np.array([[1.0, 2.0]])


@op("model_predict", group="general", grid="bands", pre=notbool)
def _(ctx, t):
    return {"n": 2}, lambda rs, a: general.model_predict_raster(rs[0], _Model(), a["n"])


# ------------------------------------------------------------ terrain

@op("surface", group="surface", rtol=1e-9, pre=all_of(notbool, side(4), square), need={"min_side": 4, "square": True})
def _(ctx, t):
    f = ctx.choice([surface.slope, surface.aspect, surface.curvature, surface.northing, surface.easting, surface.hillshade, surface.surface_area_3d])
    return {}, lambda rs, a: f(rs[0])


@op("of_aspect", group="surface", rtol=1e-9, pre=notbool)
def _(ctx, t):
    f = ctx.choice([surface.northing, surface.easting])
    return {}, lambda rs, a: f(rs[0], is_aspect=True)


@op("tpi", group="surface", rtol=1e-9, pre=all_of(notbool, side(7)), need={"min_side": 7})
def _(ctx, t):
    return {"i": 1, "o": 3}, lambda rs, a: surface.tpi(rs[0], a["i"], a["o"])


# ------------------------------------------------------------ distances

@op("proximity", group="distance", rtol=1e-6, pre=all_of(notbool, side(2)), need={"kind": "cat", "crs": "EPSG:5070"})
def _(ctx, t):
    from raster_tools.distance import proximity as px

    f = ctx.choice([px.pa_proximity, px.pa_allocation, px.pa_direction, px.proximity_analysis])
    tv = ctx.choice([None, [1], (1, 2), np.array([2])])
    md = ctx.choice([np.inf, 2.5 * t.rx])
    return {"tv": tv, "md": md, "me": ctx.choice(["euclidean", "taxi", "chebyshev"])}, lambda rs, a: flat(
        f(rs[0], target_values=a["tv"], max_distance=a["md"], distance_metric=a["me"]))


@op("cost_distance", n=2, group="distance", rtol=1e-6, lazy=True, grid="bands", pre=all_of(notbool, side(2), square, lambda t: t.shape[0] == 1),
    need={"square": True, "nb": 1, "second": "sources", "dtypes": ["int16", "int32", "float32", "float64"]})
def _(ctx, t):
    from raster_tools.distance import cost_distance as cd

    src = ctx.chance(0.5)
    if src:
        pts = np.array([[ctx.int(0, t.shape[1] - 1), ctx.int(0, t.shape[2] - 1)] for _ in range(2)])
        pts = np.unique(pts, axis=0)
        return {"s": pts if ctx.chance(0.5) else pts.tolist()}, lambda rs, a: flat(cd.cost_distance_analysis(rs[0], a["s"]))
    return {"c": ctx.choice([4, 8])}, lambda rs, a: flat(cd.cost_distance_analysis(rs[0], rs[1], connectivity=a["c"]))


def flat(x):
    return list(x) if isinstance(x, (tuple, list)) else x


# ------------------------------------------------------------ vectors

def shapes(ctx, t, kind="poly", n=None, cols=True):
    x0, y0, x1, y1 = t.bounds
    out = []
    for _ in range(n or ctx.int(1, 4)):
        cx, cy = ctx.rng.uniform(x0, x1), ctx.rng.uniform(y0, y1)
        a, b = ctx.rng.uniform(0.2, 0.6) * (x1 - x0), ctx.rng.uniform(0.2, 0.6) * (y1 - y0)
        if kind == "poly":
            out.append(shapely.box(cx - a, cy - b, cx + a, cy + b) if ctx.chance(0.6) else shapely.Polygon([(cx - a, cy - b), (cx + a, cy - b * 0.3), (cx, cy + b)]))
        elif kind == "line":
            out.append(shapely.LineString([(cx - a, cy - b), (cx + a, cy + b * 0.4), (cx, cy + b)]))
        else:
            # cell centres: extraction never grazes an edge
            i, j = ctx.int(0, t.shape[1] - 1), ctx.int(0, t.shape[2] - 1)
            out.append(shapely.Point(t.x[j] + 0.21 * t.rx, t.y[i] - 0.13 * t.ry))
    g = gpd.GeoDataFrame({"v": np.arange(len(out), dtype="i8") + 1, "w": ctx.rng.integers(1, 5, len(out)).astype("f8")}, geometry=out, crs=t.crs)
    return g


VNEED = {"crs": "EPSG:5070", "min_side": 4}
VPRE = all_of(crs_ok, notbool, side(4))


@op("clip", group="vector", grid="part", lazy=True, need=VNEED, pre=VPRE)
def _(ctx, t):
    f = ctx.choice([clipping.clip, clipping.erase, clipping.mask, clipping.envelope])
    g = shapes(ctx, t, n=1)
    # surely contains several cells
    bx = shapely.box(t.x[1] - 0.7 * t.rx, t.y[2] - 0.7 * t.ry, t.x[2] + 0.6 * t.rx, t.y[1] + 0.6 * t.ry)
    g = g.set_geometry(g.geometry.union(bx))
    return {"g": g}, lambda rs, a: f(rts.vector.get_vector(a["g"]) if ctx.index % 2 else rts.Vector(a["g"]), rs[0])


@op("clip_box", group="vector", grid="part", need=VNEED, pre=VPRE)
def _(ctx, t):
    b = [t.x[1] - 0.3 * t.rx, t.y[2] - 0.2 * t.ry, t.x[2] + 0.3 * t.rx, t.y[1] + 0.3 * t.ry]
    return {"b": ctx.choice([list, tuple, np.array])(b)}, lambda rs, a: clipping.clip_box(rs[0], a["b"])


@op("rasterize", group="vector", grid="bands", need=VNEED, pre=VPRE)
def _(ctx, t):
    g = shapes(ctx, t)
    kw = ctx.choice([{"field": "v"}, {"field": "w", "overlap_resolve_method": "max"}, {"mask": True}, {"mask": True, "mask_invert": True}, {"field": "v", "overlap_resolve_method": "first"}])
    return {"g": g, "kw": kw}, lambda rs, a: rasterize.rasterize(rts.Vector(a["g"]), rs[0], **a["kw"])


@op("length", group="vector", grid="bands", rtol=1e-5, need=VNEED, pre=VPRE)
def _(ctx, t):
    return {"g": shapes(ctx, t, "line"), "r": 1.6 * min(t.rx, t.ry)}, lambda rs, a: line_stats.length(rts.Vector(a["g"]), rs[0], a["r"], weighting_field=ctx.choice([None]))


@op("zonal_stats", group="vector", frame=True, rtol=1e-5, need=VNEED, pre=VPRE)
def _(ctx, t):
    st = [str(k) for k in ctx.rng.choice(["mean", "sum", "min", "max", "count", "std", "median", "mode"], 3, replace=False)]
    w = ctx.chance(0.5)
    return {"g": shapes(ctx, t), "st": st}, lambda rs, a: zonal.zonal_stats(rts.Vector(a["g"]), rs[0], a["st"], features_field="v", wide_format=w)


@op("zonal_raster", n=2, group="vector", frame=True, rtol=1e-5, need={**VNEED, "second": "zones"}, pre=VPRE)
def _(ctx, t):
    return {"st": ["mean", "max", "count"]}, lambda rs, a: zonal.zonal_stats(rs[1], rs[0], a["st"])


@op("extract_points", group="vector", frame=True, need=VNEED, pre=VPRE)
def _(ctx, t):
    return {"g": shapes(ctx, t, "point")}, lambda rs, a: zonal.extract_points_eager(rts.Vector(a["g"]), rs[0], "e", axis=ctx.choice([0]))


# ------------------------------------------------------------ creation, mosaics

@op("like", group="creation", grid="bands", pre=notbool)
def _(ctx, t):
    k = ctx.choice(["zeros", "ones", "full", "constant", "empty"])
    cm = ctx.chance(0.5)
    nb = ctx.int(1, 2)
    f = {"zeros": lambda r: creation.zeros_like(r, nb, copy_mask=cm), "ones": lambda r: creation.ones_like(r, nb, copy_mask=cm), "full": lambda r: creation.full_like(r, 3, nb, copy_mask=cm),
         "constant": lambda r: creation.constant_raster(r, 2.5, nb, copy_mask=cm), "empty": lambda r: creation.empty_like(r, nb, copy_mask=cm)}[k]
    if k == "empty":
        return {}, lambda rs, a: f(rs[0]) * 0 if False else creation.zeros_like(f(rs[0]))
    return {}, lambda rs, a: f(rs[0])


@op("random", group="creation", grid="bands", inv=False, pre=notbool)
def _(ctx, t):
    d, p = ctx.choice([("normal", (1, 2)), ("uniform", (0, 2)), ("binomial", (5, 0.5)), ("weibull", (2,))])
    return {"p": p if ctx.chance(0.5) else list(p)}, lambda rs, a: creation.random_raster(rs[0], d, 1, a["p"], copy_mask=ctx.index % 2 == 0)


@op("data_like", group="creation", grid="bands", pre=lambda t: t.dtype.kind != "b")
def _(ctx, t):
    arr = ctx.rng.integers(0, 5, t.shape).astype("int32")
    return {"arr": arr}, lambda rs, a: rts.data_to_raster_like(a["arr"], rs[0], nv=ctx.choice([3]))


@op("mosaic", n=2, group="creation", grid="bands", need={"crs": "EPSG:5070", "second": "same", "min_side": 2, "p_masked": 1.0, "dtypes": ["int16", "float32", "int32", "float64"]},
    pre=all_of(crs_ok, notbool, side(2), lambda t: t.nv is not None), rtol=1e-6)
def _(ctx, t):
    return {"m": ctx.choice(["first", "last", "min", "max", "sum"]), "w": [0, 1]}, lambda rs, a: rts.mosaic([rs[i] for i in a["w"]], a["m"])


# ------------------------------------------------------------ observation

def flatten(out):
    if isinstance(out, (list, tuple)):
        return list(out)
    return [out]


def second(ctx, need, m):
    """A model for the second input, on the first one's grid."""
    kind = need.get("second", "any")
    kw = dict(shape=m.shape, grid=(m.x, m.y), crs=m.crs)
    if kind == "dtype":
        return gen.model(ctx, dtype=m.dtype, kind="cat", **kw)
    if kind == "mask":
        return gen.model(ctx, dtype="int16", kind="cat", nulls=False, **kw)
    if kind == "zones":
        return gen.model(ctx, dtype="int32", kind="cat", **{**kw, "shape": (1, *m.shape[1:])}, nulls=True, nv=0, mask_style="sparse")
    if kind == "sources":
        return gen.model(ctx, dtype="int32", kind="cat", nulls=True, nv=-1 if False else 0, mask_style="dense", **{**kw, "shape": (1, *m.shape[1:])})
    if kind == "same":
        return gen.model(ctx, dtype=m.dtype, nulls=True, nv=m.nv, **kw)
    return gen.model(ctx, dtypes=need.get("dtypes"), kind=need.get("kind"), **kw)


def inputs(ctx, o, **over):
    """Random models satisfying the operation's needs."""
    need = dict(o.need)
    need.update(over)
    kw = {k: need[k] for k in ("dtypes", "kind", "min_side", "nulls", "crs", "square", "p_masked", "max_side", "unburned") if k in need}
    kw.setdefault("max_side", 11)
    kw.setdefault("kind", ctx.choice(["small", "cat", "ramp"]))
    if need.get("nb"):
        kw["max_bands"] = need["nb"]
    for _ in range(40):
        m = gen.model(ctx, **kw)
        if o.pre(Meta.model(m)):
            break
    else:
        return None
    ms = [m]
    if o.n == 2:
        ms.append(second(ctx, need, m))
    return ms


def chunking(ctx, o, shape, style=None):
    """A random chunk layout the operation can handle in reasonable time."""
    for _ in range(50):
        c = tuple(gen.rand_chunks(ctx, n, style) for n in shape[1:])
        if not o.max_blocks or len(c[0]) * len(c[1]) <= o.max_blocks:
            return c
    return tuple((n,) for n in shape[1:])


def build_all(ctx, o, ms, chunks=None, wrap=None):
    """Rasters for the models (each with its own layout)."""
    return [gen.build(ctx, m, chunks=chunks or chunking(ctx, o, m.shape), wrap=wrap) for m in ms]


def canonical(df):
    if hasattr(df, "compute"):
        df = df.compute()
    df = pd.DataFrame({str(c): (df[c] if c != getattr(df, "_geometry_column_name", None) else shapely.to_wkt(np.asarray(df[c]), rounding_precision=6)) for c in df.columns}) if len(
        df.columns) else df
    df = df.reset_index(drop=False).drop(columns=["index"], errors="ignore")
    cols = sorted(df.columns)
    df = df[cols]
    keys = [c for c in cols if df[c].dtype.kind in "iuOfb"]
    return df.sort_values(keys, kind="stable").reset_index(drop=True)


class Seen:
    """Everything observable in the outputs of one call."""

    def __init__(self, out, op_, **ckw):
        self.items = []
        for x in flatten(out):
            if isinstance(x, Raster):
                o = gen.Obs(x, **ckw)
                self.items.append(("raster", o))
            elif isinstance(x, dd.DataFrame) or hasattr(x, "spatial_partitions") or isinstance(x, pd.DataFrame):
                self.items.append(("frame", canonical(dask.compute(x)[0])))
            elif hasattr(x, "data") and isinstance(x, rts.Vector):
                self.items.append(("frame", canonical(x.data)))
            elif dask.is_dask_collection(x):
                self.items.append(("array", np.asarray(dask.compute(x)[0])))
            else:
                self.items.append(("array", np.asarray(x)))


def is_lazy(x):
    if isinstance(x, Raster):
        return dask.is_dask_collection(x.data)
    return True


def diff(a, b, rtol, chunks=False):
    """None when two Seen are the same, else a description."""
    if len(a.items) != len(b.items):
        return f"{len(a.items)} outputs, then {len(b.items)}"
    for k, ((ka, x), (kb, y)) in enumerate(zip(a.items, b.items)):
        if ka != kb:
            return f"output {k} is a {ka}, then a {kb}"
        if ka == "array":
            if not close(x, y, rtol):
                return f"output {k}: {gen.np.array2string(np.asarray(x), threshold=50)} then {np.array2string(np.asarray(y), threshold=50)}"
        elif ka == "frame":
            if list(x.columns) != list(y.columns) or len(x) != len(y):
                return f"output {k}: frame {list(x.columns)} of {len(x)} rows, then {list(y.columns)} of {len(y)}"
            for c in x.columns:
                u, v = x[c].to_numpy(), y[c].to_numpy()
                same = close(u, v, rtol) if u.dtype.kind in "fiub" and v.dtype.kind in "fiub" else bool((u.astype(str) == v.astype(str)).all())
                if not same:
                    return f"output {k} column {c}: {u[:20]} then {v[:20]}"
        else:
            for f in ("meta_dtype", "shape", "dims"):
                if getattr(x, f) != getattr(y, f):
                    return f"output {k} {f}: {getattr(x, f)} then {getattr(y, f)}"
            if not gen.same_value(x.null, y.null):
                return f"output {k} null value: {x.null!r} then {y.null!r}"
            if not gen.crs_same(x.crs, y.crs):
                return f"output {k} CRS: {x.crs} then {y.crs}"
            for f in ("x", "y", "band"):
                if not np.array_equal(getattr(x, f), getattr(y, f)):
                    return f"output {k} {f}: {getattr(x, f)} then {getattr(y, f)}"
            if not np.allclose(tuple(x.affine), tuple(y.affine), rtol=1e-12, atol=1e-9):
                return f"output {k} affine: {tuple(x.affine)} then {tuple(y.affine)}"
            if not np.array_equal(x.mask, y.mask):
                return f"output {k} mask differs at {np.argwhere(x.mask != y.mask)[:4].tolist()}"
            v = ~x.mask
            if x.data.dtype != y.data.dtype:
                return f"output {k} computed dtype: {x.data.dtype} then {y.data.dtype}"
            if not close(x.data[v], y.data[v], rtol):
                i = np.argwhere(~np.isclose(np.where(v, x.data, 0).astype("f8"), np.where(v, y.data, 0).astype("f8"), rtol=rtol, atol=0, equal_nan=True))[:4]
                return f"output {k} values differ at {i.tolist()}: {[x.data[tuple(j)] for j in i]} then {[y.data[tuple(j)] for j in i]}"
            if chunks and x.chunks != y.chunks:
                return f"output {k} chunks: {x.chunks} then {y.chunks}"
    return None


def close(x, y, rtol):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype.kind == "O" or y.dtype.kind == "O":
        return bool((x.astype(str) == y.astype(str)).all())
    if not rtol:
        return gen.arrays_same(x, y)
    return bool(np.allclose(x.astype("f8"), y.astype("f8"), rtol=rtol, atol=rtol * 1e-2 + 1e-12, equal_nan=True))
