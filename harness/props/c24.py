"""C24: mosaic, padding, stacking and grid unions place every cell at its coordinates."""
import numpy as np
import pyproj
from affine import Affine
from odc.geo.geobox import GeoBox

import raster_tools as rts
from raster_tools._grids import combine_grids
from raster_tools.exceptions import RasterIOError
from raster_tools.masking import get_default_null_value
from core import Skip, expect_raises
from gen import M, Obs, build, check_cells, check_grid, check_wellformed, crs_same, model, rand_mask, same_value

PROP = "C24"
RULE = ("1-20 rasters (beyond the recursion threshold of 8) with random offsets on one lattice, band counts, dtypes, null values and "
        "null patterns; every mosaic method, destination grid given or built; padding to tuples/rasters/geoboxes inside, outside "
        "and across the raster with every kind of fill; stacking with both joins; each result compared cell by cell with an "
        "array placement model. Non-trivial: overlap of at least two sources, or cells outside a source.")
# the square around the origin of each CRS where regridded rasters are placed: (x, y, span)
PLACES = {"EPSG:5070": (-1200000.0, 2500000.0, 200000.0), "EPSG:3857": (-12600000.0, 5900000.0, 200000.0),
          "EPSG:32611": (650000.0, 5200000.0, 100000.0), "EPSG:4326": (-113.5, 46.5, 1.5)}
DT = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "float16"]


class Lattice:
    def __init__(self, ctx, crs=None):
        self.r = ctx.choice([1.0, 30.0, 0.5, 7.25, 10.0])
        # GDAL takes the geotransform (0, 1, 0, 0, 0, -1) for a missing one (see DESIGN.md), so no unit cell has a corner at 0
        self.x0 = (ctx.choice([0.0, 500000.0, -100.0]) if self.r != 1.0 else ctx.choice([0.25, 500000.0])) + self.r * ctx.int(-3, 3)
        # cells need not be square
        self.ry = self.r if self.r == 1.0 or ctx.chance(0.65) else self.r * ctx.choice([0.5, 2.0, 3.0])
        self.y0 = ctx.choice([0.0, 4000000.0, 50.0]) + self.ry * ctx.int(-3, 3)
        self.crs = crs or ctx.choice(["EPSG:3857", "EPSG:5070", "EPSG:32611"])

    def coords(self, row, col, ny, nx):
        x = self.x0 + self.r * (col + 0.5 + np.arange(nx))
        y = self.y0 - self.ry * (row + 0.5 + np.arange(ny))
        return x, y

    def geobox(self, row, col, ny, nx):
        return GeoBox((ny, nx), Affine(self.r, 0, self.x0 + self.r * col, 0, -self.ry, self.y0 - self.ry * row), self.crs)


def source(ctx, lat, dtype, row, col, ny, nx, nb, hi=9, nulls=None, neg=False):
    """Values 0..hi or (neg) even values that may be negative. The null values are none of them, nor sums of them."""
    dtype = np.dtype(dtype)
    d = ctx.rng.integers(0, hi + 1, (nb, ny, nx))
    if neg:
        lo = 0 if dtype.kind == "u" else ctx.choice([-3, -3 if hi < 9 else -30])
        d = 2 * ctx.rng.integers(lo, 1 if lo and ctx.chance(0.4) else hi // 2 + 1, (nb, ny, nx))
        if ctx.chance(0.3) and lo:
            d = np.minimum(d, -2)
    d = d.astype(dtype)
    masked = ctx.chance(0.7) if nulls is None else nulls
    x, y = lat.coords(row, col, ny, nx)
    if not masked:
        return M(d, np.zeros(d.shape, bool), None, x, y, lat.crs)
    c = [100, 127] + ([-1] if dtype.kind != "u" else [])
    if dtype.kind == "f":
        c += [np.nan, np.nan, -99.0]
    nv = ctx.choice(c)
    mask = rand_mask(ctx, d.shape)
    unb = ctx.chance(0.2)
    if not unb:
        d = np.where(mask, dtype.type(nv), d).astype(dtype)
    m = M(d, mask, nv, x, y, lat.crs)
    m.unburned = unb
    return m


def sources(ctx, lat, n, hi=9, span=6, dtypes=None, same=False):
    out = []
    mixed = ctx.chance(0.4)
    dt = ctx.choice(dtypes or DT)
    nb1 = ctx.int(1, 3)
    neg = ctx.chance(0.5)
    base = (ctx.int(0, span), ctx.int(0, span), ctx.int(2, 8), ctx.int(2, 8))
    for _ in range(n):
        row, col, ny, nx = base if same else (ctx.int(0, span), ctx.int(0, span), ctx.int(2, 8), ctx.int(2, 8))
        nb = nb1 if ctx.chance(0.6) else ctx.int(1, 3)
        m = source(ctx, lat, ctx.choice(dtypes or DT) if mixed else dt, row, col, ny, nx, nb, hi, neg=neg)
        m.pos = (row, col)
        out.append(m)
    return out


def place(m, pos, grid):
    """Cells of m on grid (row, col, ny, nx): data, valid."""
    r0, c0, ny, nx = grid
    nb = m.shape[0]
    d = np.zeros((nb, ny, nx), m.dtype)
    v = np.zeros((nb, ny, nx), bool)
    for i in range(m.shape[1]):
        for j in range(m.shape[2]):
            a, b = m_row(pos, i) - r0, pos[1] + j - c0
            if 0 <= a < ny and 0 <= b < nx:
                d[:, a, b] = m.data[:, i, j]
                v[:, a, b] = ~m.mask[:, i, j]
    return d, v


def m_row(pos, i):
    return pos[0] + i


def union(ms):
    r0, c0 = min(m.pos[0] for m in ms), min(m.pos[1] for m in ms)
    r1 = max(m.pos[0] + m.shape[1] for m in ms)
    c1 = max(m.pos[1] + m.shape[2] for m in ms)
    return r0, c0, r1 - r0, c1 - c0


def inter(ms):
    r0, c0 = max(m.pos[0] for m in ms), max(m.pos[1] for m in ms)
    r1 = min(m.pos[0] + m.shape[1] for m in ms)
    c1 = min(m.pos[1] + m.shape[2] for m in ms)
    return r0, c0, r1 - r0, c1 - c0


def check_on(ctx, o, lat, grid, key="grid"):
    x, y = lat.coords(*grid)
    check_grid(ctx, o, M(None, None, None, x, y, lat.crs), key)


def pick_null(ctx, ms, dtype):
    nvs = [m.nv for m in ms if m.nv is not None]
    return nvs[0] if nvs else get_default_null_value(dtype)


def fits(v, dtype):
    dtype = np.dtype(dtype)
    if dtype.kind == "f":
        return True
    return not np.isnan(v) and np.iinfo(dtype).min <= v <= np.iinfo(dtype).max


def grid_arg(ctx, lat, ms):
    """(dst_grid argument or None, expected grid)"""
    u = union(ms)
    how = ctx.choice(["none", "none", "geobox", "raster", "bigger", "smaller"])
    if how == "none":
        return None, u
    if how in ("geobox", "raster"):
        g = u
    elif how == "bigger":
        a, b = ctx.int(0, 3), ctx.int(0, 3)
        g = (u[0] - a, u[1] - b, u[2] + a + ctx.int(0, 3), u[3] + b + ctx.int(0, 3))
    else:
        a, b = ctx.int(0, u[2] - 1), ctx.int(0, u[3] - 1)
        g = (u[0] + a, u[1] + b, max(1, u[2] - a - ctx.int(0, 2)), max(1, u[3] - b - ctx.int(0, 2)))
        if g[2] < 2 or g[3] < 2:
            raise Skip
    if how == "raster":
        x, y = lat.coords(*g)
        return rts.data_to_raster(np.zeros((1, g[2], g[3])), x=x, y=y, crs=lat.crs), g
    return lat.geobox(*g), g


def f_mosaic(ctx):
    method = ctx.enum(["first", "last", "min", "max", "sum"])
    n = ctx.choice([1, 2, 2, 3, 3, 4, 6, 7, 8, 9, 11, 17], p=[.1,.14,.14,.12,.12,.1,.06,.06,.06,.04,.03,.03])
    lat = Lattice(ctx)
    ms = sources(ctx, lat, n, hi=5 if method == "sum" else 9, same=ctx.chance(0.25))
    arg, grid = grid_arg(ctx, lat, ms)
    kw = {}
    dtype = np.result_type(*[m.dtype for m in ms])
    if ctx.chance(0.3):
        dtype = np.dtype(ctx.choice(["int16", "int32", "float32", "float64", "int64"]))
        kw["dtype"] = ctx.choice([dtype, str(dtype)])
    nv = pick_null(ctx, ms, dtype)
    if ctx.chance(0.3):
        nv = ctx.choice([110, 120] + ([-5] if dtype.kind != "u" else []) + ([np.nan] if dtype.kind == "f" else []))
        kw["null_value"] = nv
    if not fits(nv, dtype):
        raise Skip
    if arg is not None:
        kw["dst_grid"] = arg
    elif ctx.chance(0.2):
        kw["dst_crs"] = lat.crs
        if all(m.pos == ms[0].pos and m.shape[1:] == ms[0].shape[1:] for m in ms):
            del kw["dst_crs"]
    if method != "last" or ctx.chance(0.5):
        kw["mosaic_method"] = method
    ctx.note(method, n, grid, [m.pos for m in ms], kw.get("dtype"), str(nv))
    ctx.describe(method=method, pos=[m.pos for m in ms], grid=grid, kw=kw)
    rs = [build(ctx, m) for m in ms]
    o = Obs(rts.mosaic(rs, **kw))
    nb = max(m.shape[0] for m in ms)
    shape = (nb, grid[2], grid[3])
    val = np.zeros(shape, "f8")
    any_ = np.zeros(shape, bool)
    layers = np.zeros(shape, int)
    for m in ms:
        d, v = place(m, m.pos, grid)
        d = d.astype("f8")
        k = m.shape[0]
        cur, has = val[:k], any_[:k]
        if method == "first":
            new = np.where(has, cur, d)
        elif method == "last":
            new = d
        elif method == "min":
            new = np.where(has, np.minimum(cur, d), d)
        elif method == "max":
            new = np.where(has, np.maximum(cur, d), d)
        else:
            new = cur + np.where(v, d, 0)
        val[:k] = np.where(v, new, cur)
        any_[:k] |= v
        layers[:k] += v
    check_wellformed(ctx, o)
    check_on(ctx, o, lat, grid)
    check_cells(ctx, o, val.astype(dtype), ~any_, key="mosaic", dtype=dtype)
    ctx.check(same_value(o.null, nv), "mosaic:null_value", got=o.null, want=nv)
    ctx.count("overlapping_cells", (layers > 1).sum())
    ctx.count("recursive", n >= 8)
    ctx.interesting((layers > 1).any() or (~any_).any())


def f_stack(ctx):
    lat = Lattice(ctx)
    n = ctx.choice([1, 2, 2, 3, 4, 6])
    ms = sources(ctx, lat, n, span=3, same=ctx.chance(0.3))
    join = ctx.enum(["inner", "outer"])
    dtype = np.result_type(*[m.dtype for m in ms])
    kw = {}
    if ctx.chance(0.3):
        dtype = np.dtype(ctx.choice(["int16", "int32", "float32", "float64"]))
        kw["dtype"] = dtype
    nv = pick_null(ctx, ms, dtype)
    if ctx.chance(0.3):
        nv = ctx.choice([110, 120] + ([-5] if dtype.kind != "u" else []) + ([np.nan] if dtype.kind == "f" else []))
        kw["null_value"] = nv
    elif ctx.chance(0.15):
        nv = get_default_null_value(dtype)
        kw["null_value"] = "default"
    if not fits(nv, dtype):
        raise Skip
    grid = inter(ms) if join == "inner" else union(ms)
    if join != "inner" or ctx.chance(0.5):
        kw["join"] = join
    if ctx.chance(0.3):
        arg, g = grid_arg(ctx, lat, ms)
        if arg is not None:
            kw["dst_grid"], grid = arg, g
    elif ctx.chance(0.3):
        kw["dst_crs"] = lat.crs
        if ctx.chance(0.5) and lat.ry == lat.r:
            kw["resolution"] = lat.r
    ctx.note(n, join, grid, [m.pos for m in ms], str(nv), dtype)
    ctx.describe(join=join, pos=[m.pos for m in ms], grid=grid, kw=kw)
    rs = [build(ctx, m) for m in ms]
    if "dst_grid" not in kw and join == "inner" and (grid[2] <= 0 or grid[3] <= 0):
        expect_raises(ctx, "stack:empty", lambda: rts.stack_bands(rs, **kw), ValueError)
        ctx.count("empty_intersections")
        return
    if grid[2] < 2 or grid[3] < 2:
        raise Skip
    out = rts.stack_bands(rs, **kw)
    o = Obs(out)
    want, wm = [], []
    for m in ms:
        d, v = place(m, m.pos, grid)
        want.append(d.astype(dtype))
        # cells keep their null only if the result can hold one
        wm.append(~v)
    want, wm = np.concatenate(want), np.concatenate(wm)
    if n == 1 and ms[0].nv is None and "dst_grid" not in kw and "null_value" not in kw:
        nv = o.null
    check_wellformed(ctx, o, burned=not any(m.unburned for m in ms))
    check_on(ctx, o, lat, grid)
    check_cells(ctx, o, want, wm, key="stack", dtype=dtype)
    if not (n == 1 and ms[0].nv is None):
        ctx.check(same_value(o.null, nv), "stack:null_value", got=o.null, want=nv)
    ctx.interesting(wm.any() or len({m.pos for m in ms}) > 1)
    # splitting gives the bands back
    parts = rts.split_bands(out)
    ctx.check(len(parts) == want.shape[0], "split:count", got=len(parts))
    for b in sorted({0, want.shape[0] - 1, ctx.int(0, want.shape[0] - 1)}):
        op = Obs(parts[b])
        check_wellformed(ctx, op, burned=not any(m.unburned for m in ms))
        check_on(ctx, op, lat, grid, "split:grid")
        check_cells(ctx, op, want[b:b + 1], wm[b:b + 1], key="split", dtype=dtype)
        ctx.count("split_checked")


def f_pad(ctx):
    lat = Lattice(ctx)
    crs = None if ctx.chance(0.15) else lat.crs
    row, col, ny, nx = ctx.int(0, 5), ctx.int(0, 5), ctx.int(2, 8), ctx.int(2, 8)
    m = source(ctx, lat, ctx.choice(DT + ["bool"]) if False else ctx.choice(DT), row, col, ny, nx, ctx.int(1, 3))
    m.crs = crs
    r = build(ctx, m)
    # edges in cells relative to the raster, growing outwards (negative: inside)
    e = [ctx.choice([0, 0, 1, 2, 4, -1, -2]) for _ in range(4)]
    frac = ctx.chance(0.3)
    # fractions of a cell: the result covers at least the requested extent
    f = [ctx.choice([0.0, 0.25, 0.5, 0.9]) if frac else 0.0 for _ in range(4)]
    if -e[0] - e[2] >= nx or -e[1] - e[3] >= ny:
        raise Skip
    R, RY = lat.r, lat.ry
    left, top = m.x[0] - R / 2, m.y[0] + RY / 2
    right, bottom = m.x[-1] + R / 2, m.y[-1] - RY / 2
    b = (left - R * (e[0] + f[0]), bottom - RY * (e[3] + f[3]), right + R * (e[2] + f[2]), top + RY * (e[1] + f[1]))
    kind = ctx.enum(["tuple", "geobox", "raster", "list"])
    if kind == "tuple":
        target = b
    elif kind == "list":
        target = np.array(b) if ctx.chance(0.5) else list(b)
    else:
        # a grid with another resolution covering the same extent
        if frac:
            raise Skip
        k = ctx.choice([2, 4])
        kx, ky = k * int(round((b[2] - b[0]) / R)), k * int(round((b[3] - b[1]) / RY))
        s, sy = R / k, RY / k
        gb = GeoBox((ky, kx), Affine(s, 0, b[0], 0, -sy, b[3]), crs)
        if kind == "geobox":
            target = gb
        else:
            target = rts.data_to_raster(np.zeros((1, ky, kx)), x=b[0] + s * (np.arange(kx) + 0.5),
                                        y=b[3] - sy * (np.arange(ky) + 0.5), crs=crs)
    nb = m.shape[0]
    fillkind = ctx.choice(["none", "scalar", "null", "list"])
    fills = None
    if fillkind == "scalar":
        fills = ctx.choice([0, 4, 77])
    elif fillkind == "null":
        fills = m.nv if m.nv is not None else 50
    elif fillkind == "list":
        fills = [ctx.choice([0, 5, 77] + ([m.nv] if m.nv is not None else [])) for _ in range(nb)]
    ctx.note(kind, e, f, str(fills))
    ctx.describe(kind=kind, edges=e, frac=f, fills=fills, bounds=b)
    out = rts.pad(r, target, fill_values=fills) if ctx.chance(0.5) or not hasattr(r, "pad") else r.pad(target, fill_values=fills)
    o = Obs(out)
    nv = m.nv
    if fills is None and nv is None:
        nv = get_default_null_value(m.dtype)
    per = [nv] * nb if fills is None else (fills if isinstance(fills, list) else [fills] * nb)
    null_new = [nv is not None and (fills is None or same_value(v, nv)) for v in per]
    # the grid: whole cells added until the extent is covered; a fraction may round up by at most one more cell
    n_new = {}
    lo = [max(0, int(np.ceil(e[i] + f[i] - 1e-6))) for i in range(4)]
    gx, gy = o.x, o.y
    ctx.check(gx.size >= nx and gy.size >= ny, "pad:lost_cells", got=(gy.size, gx.size))
    gl = int(round((m.x[0] - gx[0]) / R))
    gt = int(round((gy[0] - m.y[0]) / RY))
    gr, gb_ = gx.size - nx - gl, gy.size - ny - gt
    for name, g, w, fr in zip(("left", "top", "right", "bottom"), (gl, gt, gr, gb_), (lo[0], lo[1], lo[2], lo[3]), f):
        ctx.check(w <= g <= w + (1 if fr else 0), "pad:extent", f"wrong number of cells added on the {name}", got=g, want=w, frac=fr)
    x = m.x[0] + R * (np.arange(gx.size) - gl)
    y = m.y[0] - RY * (np.arange(gy.size) - gt)
    check_grid(ctx, o, M(None, None, None, x, y, crs))
    want = np.zeros((nb, gy.size, gx.size), m.dtype)
    wm = np.zeros(want.shape, bool)
    for i in range(nb):
        if not null_new[i]:
            want[i] = np.asarray(per[i]).astype(m.dtype)
        wm[i] = null_new[i]
    want[:, gt:gt + ny, gl:gl + nx] = m.data
    wm[:, gt:gt + ny, gl:gl + nx] = m.mask
    check_wellformed(ctx, o, burned=not m.unburned)
    check_cells(ctx, o, want, wm, key="pad", dtype=m.dtype)
    ctx.check(same_value(o.null, nv), "pad:null_value", got=o.null, want=nv)
    ctx.count("padded_cells", want.size - m.data.size)
    ctx.interesting(want.size > m.data.size)


def f_grids(ctx):
    lat = Lattice(ctx)
    n = ctx.int(1, 6)
    ms = [type("G", (), {})() for _ in range(n)]
    for m in ms:
        m.pos = (ctx.int(0, 6), ctx.int(0, 6))
        m.shape = (1, ctx.int(1, 8), ctx.int(1, 8))
    how = ctx.enum(["union", "intersection", None])
    gs = [lat.geobox(*m.pos, *m.shape[1:]) for m in ms]
    want = inter(ms) if how == "intersection" else union(ms)
    ctx.note(how, [(m.pos, m.shape) for m in ms])
    ctx.describe(how=how, grids=[(m.pos, m.shape) for m in ms])
    if any(1 in m.shape[1:] for m in ms) and any((m.pos, m.shape) != (ms[0].pos, ms[0].shape) for m in ms):
        raise Skip  # single rows or columns carry no cell size
    if want[2] <= 0 or want[3] <= 0:
        expect_raises(ctx, "grids:empty", lambda: combine_grids(gs, how), ValueError)
        ctx.count("empty_intersections")
        return
    g = combine_grids(gs, how)
    ctx.check(tuple(g.shape) == want[2:], "grids:shape", got=tuple(g.shape), want=want)
    wa = lat.geobox(*want).affine
    ctx.check(np.allclose(tuple(g.affine)[:6], tuple(wa)[:6], rtol=1e-9, atol=1e-5), "grids:affine", got=g.affine, want=wa)
    ctx.check(g.crs == gs[0].crs, "grids:crs")
    ctx.count("grids_checked")
    ctx.interesting(n > 1)


def candidates(m, o, X, Y, crs, tol):
    """For every cell of the result and band of the source: which values lie within tol source cells of its centre.

    Yields (inside-and-valid, value) or null flags for nine points around it."""
    tr = pyproj.Transformer.from_crs(crs, m.crs, always_xy=True)
    rx, ry = abs(m.x[1] - m.x[0]), abs(m.y[1] - m.y[0])
    SX, SY = (X, Y) if str(crs) == str(m.crs) else tr.transform(X, Y)
    PX, PY = (SX - m.x[0]) / rx + 0.5, (m.y[0] - SY) / ry + 0.5
    nb, ny, nx = m.shape
    for sy in (-1, 0, 1):
        for sx in (-1, 0, 1):
            jx, jy = np.floor(PX + sx * tol).astype(int), np.floor(PY + sy * tol).astype(int)
            inside = (jx >= 0) & (jx < nx) & (jy >= 0) & (jy < ny)
            cx, cy = np.clip(jx, 0, nx - 1), np.clip(jy, 0, ny - 1)
            yield ~inside[None] | m.mask[:, cy, cx], m.data[:, cy, cx]


def f_regrid(ctx):
    """Sources on different grids, resolutions and coordinate systems."""
    what = ctx.enum(["mosaic", "stack"])
    n = ctx.choice([1, 2, 2, 3])
    crss = list(PLACES)
    first = ctx.choice(crss)
    px, py, span = PLACES[first]
    cx0, cy0 = px + span * ctx.rng.uniform(-.4, .4), py + span * ctx.rng.uniform(-.4, .4)
    cell = span / ctx.choice([2000.0, 5000.0, 300.0])
    dt = ctx.choice(["uint8", "int16", "int32", "float32", "float64", "int64", "uint16"])
    nv = 100 if ctx.chance(0.5) or np.dtype(dt).kind != "f" else np.nan
    ms = []
    for k in range(n):
        crs = first if k == 0 or ctx.chance(0.4) else ctx.choice(crss)
        f = ctx.rng.uniform(0.6, 1.7) if k else 1.0
        ny, nx = ctx.int(2, 10), ctx.int(2, 10)
        # a centre near that of the first one, cell size in the units of the CRS
        ax, ay = pyproj.Transformer.from_crs(first, crs, always_xy=True).transform(
            [cx0 + cell * ctx.rng.uniform(-4, 4) * (k > 0), cx0 + cell], [cy0 + cell * ctx.rng.uniform(-4, 4) * (k > 0), cy0])
        unit = cell * f if crs == first else f * cell * (PLACES[crs][2] / span)
        x = ax[0] + unit * (np.arange(nx) - (nx - 1) / 2)
        fy = ctx.choice([1.0, 1.0, 2.0, 0.5])
        if k == 0:
            fy0 = fy
        y = ay[0] - unit * fy * (np.arange(ny) - (ny - 1) / 2)
        nb = ctx.int(1, 2)
        d = ctx.rng.integers(0, 60, (nb, ny, nx)).astype(dt)
        masked = k == 0 or ctx.chance(0.7)
        mask = rand_mask(ctx, d.shape) if masked else np.zeros(d.shape, bool)
        if masked:
            d = np.where(mask, np.asarray(nv, dt), d).astype(dt)
        ms.append(M(d, mask, nv if masked else None, x, y, crs))
    kw = {}
    how = ctx.choice(["default", "crs", "res", "crs_res", "geobox"])
    crs = first
    res = cell, cell * fy0
    if how in ("crs", "crs_res"):
        # without a resolution the number of the first raster's resolution is used in the units of the result (documented): same units only
        crs = ctx.choice([c for c in crss if how == "crs_res" and what == "stack" or (c == "EPSG:4326") == (first == "EPSG:4326")])
        kw["dst_crs"] = ctx.choice([crs, int(crs[5:])])
        res = None
    if "res" in how and what == "stack":
        kw["resolution"] = float(PLACES[crs][2] / span * cell * ctx.choice([0.8, 1.0, 1.0, 1.7, 2.5]))
        res = kw["resolution"], kw["resolution"]
    join = ctx.choice(["inner", "outer"]) if what == "stack" else "outer"
    gb = None
    if how == "geobox":
        u = cell * ctx.choice([1.0, 0.7, 2.0])
        gb = GeoBox((ctx.int(2, 14), ctx.int(2, 14)), Affine(u, 0, cx0 - u * ctx.rng.uniform(1, 7), 0, -u, cy0 + u * ctx.rng.uniform(1, 7)), crs)
        kw["dst_grid"] = gb
    if what == "stack":
        kw["join"] = join
    method = "stack"
    if what == "mosaic":
        method = ctx.choice(["first", "last"])
        kw["mosaic_method"] = method
    ctx.note(what, n, how, str(kw), [m.crs for m in ms], [m.x[0] for m in ms])
    ctx.describe(kw=kw, crs=[m.crs for m in ms], cell=cell)
    rs = [build(ctx, m) for m in ms]
    # the extents of the sources in the target system
    ext = []
    for m in ms:
        hx, hy = abs(m.x[1] - m.x[0]) / 2, abs(m.y[1] - m.y[0]) / 2
        gx, gy = np.meshgrid(np.linspace(m.x[0] - hx, m.x[-1] + hx, 30), np.linspace(m.y[-1] - hy, m.y[0] + hy, 30))
        ex, ey = pyproj.Transformer.from_crs(m.crs, crs, always_xy=True).transform(gx, gy) if crs != m.crs else (gx, gy)
        ext.append((ex.min(), ey.min(), ex.max(), ey.max()))
    try:
        out = getattr(rts, "mosaic" if what == "mosaic" else "stack_bands")(rs, **kw)
    except ValueError as e:
        # an empty intersection is refused; near-empty ones may be
        i = np.array(ext)
        w, h = i[:, 2].min() - i[:, 0].max(), i[:, 3].min() - i[:, 1].max()
        ctx.check(join == "inner" and gb is None and n > 1 and "empty" in str(e) and (w < 3 * (res or (cell,))[0] or h < 3 * (res or (cell,))[-1]), what + ":refused", str(e), ext=ext)
        ctx.count("empty_intersections")
        return
    if out.shape[1] * out.shape[2] > 20000 or 1 in out.shape[1:]:
        raise Skip("large target")
    o = Obs(out)
    ctx.check(crs_same(o.crs, crs), "regrid:crs", got=o.crs, want=crs)
    if gb is not None:
        a = gb.affine
        want = a.c + a.a * (np.arange(gb.shape[1]) + .5), a.f + a.e * (np.arange(gb.shape[0]) + .5)
        ctx.check(o.data.shape[1:] == tuple(gb.shape) and np.allclose(o.x, want[0], rtol=0, atol=1e-6 * a.a) and np.allclose(o.y, want[1], rtol=0, atol=1e-6 * a.a),
                  "regrid:grid", "not the requested grid", got=(o.x, o.y), want=want)
    else:
        sx, sy = abs(o.affine.a), abs(o.affine.e)
        if res is not None:
            ctx.check(abs(sx - res[0]) < 1e-6 * res[0] and abs(sy - res[1]) < 1e-6 * res[1], "regrid:resolution", got=(sx, sy), want=res)
        ob = (o.x[0] - sx / 2, o.y[-1] - sy / 2, o.x[-1] + sx / 2, o.y[0] + sy / 2)
        e = np.array(ext)
        # reprojected grids are boxes around rotated extents, some source cells wider
        coarse = max((x1 - x0) / min(m.shape[1:]) for (x0, _, x1, _), m in zip(ext, ms)), max((y1 - y0) / min(m.shape[1:]) for (_, y0, _, y1), m in zip(ext, ms))
        if join == "outer":
            w = (e[:, 0].min(), e[:, 1].min(), e[:, 2].max(), e[:, 3].max())
            ctx.check(ob[0] <= w[0] + sx and ob[1] <= w[1] + sy and ob[2] >= w[2] - sx and ob[3] >= w[3] - sy, "regrid:coverage",
                      "the result does not cover the sources", got=ob, want=w)
        else:
            w = (e[:, 0].max(), e[:, 1].max(), e[:, 2].min(), e[:, 3].min())
        sx, sy = 3 * sx + 2 * coarse[0], 3 * sy + 2 * coarse[1]
        ctx.check(ob[0] >= w[0] - sx and ob[1] >= w[1] - sy and ob[2] <= w[2] + sx and ob[3] <= w[3] + sy, "regrid:excess",
                  "the result reaches far beyond the " + ("sources" if join == "outer" else "intersection"), got=ob, want=w)
        ctx.count("grids_built")
    X, Y = np.meshgrid(o.x, o.y)
    dtype = np.result_type(*[m.dtype for m in ms])
    ctx.check(o.data.dtype == dtype, what + ":dtype", got=o.data.dtype, want=dtype)
    ctx.check(same_value(o.null, ms[0].nv), what + ":null_value", got=o.null, want=ms[0].nv)
    check_wellformed(ctx, o)
    if what == "stack":
        ctx.check(o.data.shape[0] == sum(m.shape[0] for m in ms), "stack:bands", got=o.data.shape)
        ok, b = [], 0
        for m in ms:
            k = m.shape[0]
            d, om = o.data[b:b + k], o.mask[b:b + k]
            good = np.zeros(d.shape, bool)
            for null, v in candidates(m, o, X, Y, crs, 0.13):
                good |= np.where(null, om, ~om & (d == v))
            ok.append(good)
            b += k
        ok = np.concatenate(ok)
    else:
        nb = max(m.shape[0] for m in ms)
        ctx.check(o.data.shape[0] == nb, "mosaic:bands", got=o.data.shape)
        ok = np.zeros(o.data.shape, bool)
        reach = np.ones(o.data.shape, bool)
        for m in (ms if method == "first" else ms[::-1]):
            k = m.shape[0]
            some = np.zeros((k, *o.data.shape[1:]), bool)
            for null, v in candidates(m, o, X, Y, crs, 0.13):
                ok[:k] |= reach[:k] & ~null & ~o.mask[:k] & (o.data[:k] == v)
                some |= null
            reach[:k] &= some
        ok |= reach & o.mask
    ctx.count("regridded_cells", ok.size)
    ctx.interesting((~o.mask).any())
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        ctx.fail(f"regrid:{method}:cell", f"cell {i} holds a value no source has there; {int((~ok).sum())} cells differ", got=np.where(o.mask, -1, o.data),
                 sources=[np.where(m.mask, -1, m.data) for m in ms])


def f_refuse(ctx):
    lat = Lattice(ctx, "EPSG:3857")
    ms = sources(ctx, lat, 2, dtypes=["int32"])
    rs = [build(ctx, m) for m in ms]
    g = lat.geobox(0, 0, 4, 4)
    left, top = ms[0].x[0] - lat.r / 2, ms[0].y[0] + lat.ry / 2
    bad = [
        lambda: rts.mosaic([]), lambda: rts.stack_bands([]), lambda: rts.mosaic(rs, mosaic_method="bogus"), lambda: rts.mosaic(rs, mosaic_method="mean"),
        lambda: rts.mosaic(rs, resampling_method="bogus"), lambda: rts.mosaic(rs, null_value="x"), lambda: rts.mosaic(rs, dst_grid=5),
        lambda: rts.stack_bands(rs, join="bogus"), lambda: rts.stack_bands(rs, join=None), lambda: rts.stack_bands(rs, resampling_method="bogus"),
        lambda: rts.stack_bands(rs, null_value="x"), lambda: rts.stack_bands(rs, dst_grid=5),
        lambda: rts.stack_bands(rs, dst_grid=g, dst_crs="EPSG:5070"), lambda: rts.stack_bands(rs, dst_grid=g, resolution=3.0),
        lambda: combine_grids([r.geobox for r in rs], how="bogus"),
        lambda: rts.pad(rs[0], (1, 2, 3)), lambda: rts.pad(rs[0], "bogus"), lambda: rts.pad(rs[0], 5),
        lambda: rts.pad(rs[0], (left - lat.r, top - lat.ry, left, top), fill_values=[1] * (rs[0].nbands + 1)),
        lambda: rts.pad(rs[0], (left - lat.r, top - lat.ry, left, top), fill_values="x"),
        lambda: rts.pad(rs[0], GeoBox((4, 4), Affine(1, 0, 0, 0, -1, 0), "EPSG:5070")),
        lambda: rts.split_bands(np.zeros((1, 3, 3))), lambda: rts.split_bands("x.tif"),
    ]
    i = ctx.enum(range(len(bad)))
    ctx.note(i)
    expect_raises(ctx, f"accepted_bad_argument:{i}", bad[i], ValueError, TypeError, RasterIOError)
    ctx.count("refused")


FAMILIES = {"regrid": (f_regrid, 90, 1800), "refuse": (f_refuse, 23, 23), "mosaic": (f_mosaic, 120, 3000), "stack": (f_stack, 80, 2000), "pad": (f_pad, 140, 3000), "grids": (f_grids, 80, 800)}
REQUIRED = ["regridded_cells", "grids_built", "refused", "overlapping_cells", "recursive", "padded_cells", "split_checked", "grids_checked"]
