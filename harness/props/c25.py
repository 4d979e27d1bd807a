"""Reprojection samples the right source cell."""
import numpy as np
import pyproj
import raster_tools as rts
from affine import Affine
from odc.geo.geobox import GeoBox

import gen
from core import Skip, expect_raises

PROP = "C25"
RULE = ("one case = one reprojection of a generated raster (dtype, null pattern, bands, chunks) to another grid or CRS, judged cell by "
        "cell at the destination cell centres; non-trivial when a valid source value reaches the destination")
REQUIRED = ["cells_judged", "null_expected", "crs_pairs", "identity_cases", "aggregated_cells", "apart", "tuple_resolutions"]
DT = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "int64", "uint64", "float32", "float64"]
# the square around the origin of each CRS where generated rasters are placed: (x, y, span)
PLACES = {"EPSG:5070": (-1200000.0, 2500000.0, 200000.0), "EPSG:3857": (-12600000.0, 5900000.0, 200000.0),
          "EPSG:32611": (650000.0, 5200000.0, 100000.0), "EPSG:4326": (-113.5, 46.5, 1.5)}


def place(ctx, crs, ny, nx, square=None):
    """A grid at a realistic place of the CRS."""
    px, py, span = PLACES[crs]
    if crs == "EPSG:4326":
        rx = ctx.choice([0.01, 0.125, 1 / 3600 * 10, 0.0025])
    else:
        rx = ctx.choice([30.0, 10.0, 250.0, 1000.0, 0.5, 7.25])
    ry = rx if (square or ctx.chance(0.7)) else rx * ctx.choice([0.5, 2.0, 1.25])
    x0 = px + ctx.rng.integers(-10, 11) * span / 20
    y0 = py + ctx.rng.integers(-10, 11) * span / 20
    if ctx.chance(0.5):  # a lattice through the origin, or not
        x0, y0 = np.floor(x0 / rx) * rx, np.floor(y0 / ry) * ry
    return x0 + rx / 2 + rx * np.arange(nx), y0 - ry / 2 - ry * np.arange(ny)


def small_place(ctx, ny, nx, square=None):
    """Grids on exactly representable coordinates."""
    rx = ctx.choice([2.0, 10.0, 30.0, 0.5, 4.0])
    ry = rx if (square or ctx.chance(0.5)) else ctx.choice([2.0, 0.5, 8.0, 15.0])
    x0 = rx * ctx.int(-20, 20) + ctx.choice([0.0, 0.25, 100.0])
    y0 = ry * ctx.int(-20, 20) + ctx.choice([0.0, 0.25, -64.0])
    return x0 + rx / 2 + rx * np.arange(nx), y0 - ry / 2 - ry * np.arange(ny)


def step(m):
    return abs(m.x[1] - m.x[0]), abs(m.y[1] - m.y[0])


def origin(m):
    rx, ry = step(m)
    return m.x[0] - rx / 2, m.y[0] + ry / 2, rx, ry


def check_target(ctx, r, o, gb, crs):
    ctx.check(o.data.shape[1:] == tuple(gb.shape), "grid:shape", "not the requested grid", got=o.data.shape, want=tuple(gb.shape))
    a = gb.affine
    wx = a.c + a.a * (np.arange(gb.shape[1]) + 0.5)
    wy = a.f + a.e * (np.arange(gb.shape[0]) + 0.5)
    tol = 1e-6 * min(abs(a.a), abs(a.e))
    ctx.check(np.allclose(o.x, wx, rtol=0, atol=tol) and np.allclose(o.y, wy, rtol=0, atol=tol), "grid:coords",
              "the result is not on the requested grid", got=(o.x, o.y), want=(wx, wy))
    ctx.check(gen.crs_same(o.crs, crs), "grid:crs", got=o.crs, want=crs)
    return wx, wy


def judge_nearest(ctx, m, o, PX, PY, tol, nv):
    """Every destination cell holds the value of a source cell within tol of the point (source pixel coordinates)."""
    nb, ny, nx = m.shape
    dd, dm = o.data, o.mask
    ok = np.zeros(dd.shape, bool)
    for sy in (-1, 0, 1):
        for sx in (-1, 0, 1):
            jx = np.floor(PX + sx * tol).astype(int)
            jy = np.floor(PY + sy * tol).astype(int)
            inside = (jx >= 0) & (jx < nx) & (jy >= 0) & (jy < ny)
            cx, cy = np.clip(jx, 0, nx - 1), np.clip(jy, 0, ny - 1)
            for b in range(nb):
                isnull = ~inside | m.mask[b][cy, cx]
                v = m.data[b][cy, cx]
                ok[b] |= np.where(isnull, dm[b], ~dm[b] & (dd[b] == v))
                if sx == 0 and sy == 0:
                    ctx.count("null_expected", isnull.sum())
                    ctx.interesting((~isnull).any())
    ctx.count("cells_judged", ok.size)
    if not ok.all():
        b, i, j = np.argwhere(~ok)[0]
        ctx.fail("nearest:cell", f"cell {(int(b), int(i), int(j))} is not the source cell under its centre "
                 f"(source pixel coordinates {PX[i, j]:.4f}, {PY[i, j]:.4f}); {int((~ok).sum())} cells differ",
                 got=np.where(dm, -1, dd), source=np.where(m.mask, -1, m.data), got_value=(dd[b, i, j], bool(dm[b, i, j])), null=nv)


def target(ctx, m, crs):
    """An axis-aligned destination grid overlapping the source, at another resolution and offset."""
    x0, y0, rx, ry = origin(m)
    fx = ctx.choice([1.0, 0.5, 2.0, 0.37, 1.61, 3.0, 0.9])
    fy = fx if ctx.chance(0.7) else ctx.choice([1.0, 0.5, 2.0, 0.73])
    dx, dy = rx * fx, ry * fy
    W, H = m.x.size * rx, m.y.size * ry
    style = ctx.choice(["offset", "lattice", "inside", "beyond", "apart"], p=[0.4, 0.2, 0.15, 0.2, 0.05])
    if style == "lattice":
        ox, oy = x0 + rx * ctx.int(-3, 3), y0 + ry * ctx.int(-3, 3)
    elif style == "beyond":
        ox, oy = x0 - W * ctx.rng.uniform(0.1, 0.8), y0 + H * ctx.rng.uniform(0.1, 0.8)
    elif style == "inside":
        ox, oy = x0 + W * ctx.rng.uniform(0.0, 0.4), y0 - H * ctx.rng.uniform(0.0, 0.4)
    elif style == "apart":
        ox, oy = x0 + 1.5 * W, y0 - 1.2 * H
    else:
        ox, oy = x0 + rx * ctx.rng.uniform(-2, 2), y0 + ry * ctx.rng.uniform(-2, 2)
    nx = int(np.clip(ctx.rng.uniform(0.5, 1.8) * W / dx, 2, 40))
    ny = int(np.clip(ctx.rng.uniform(0.5, 1.8) * H / dy, 2, 40))
    ctx.describe(style=style, factors=(fx, fy), target=(ny, nx))
    return GeoBox((ny, nx), Affine(dx, 0, ox, 0, -dy, oy), crs)


def gen_model(ctx, crs, small=False, **kw):
    ny, nx = ctx.int(2, 18), ctx.int(2, 18)
    if small:
        ny, nx = ctx.int(4, 20), ctx.int(4, 20)
    grid = (small_place(ctx, ny, nx) if small else place(ctx, crs, ny, nx))
    kw.setdefault("dtypes", DT)
    m = gen.model(ctx, shape=(ctx.int(1, 3), ny, nx), crs=crs, grid=grid, unburned=ctx.chance(0.25), **kw)
    return m


def after(ctx, m, o):
    gen.check_wellformed(ctx, o)
    ctx.check(o.data.dtype == m.dtype, "dtype", "dtype changed", got=o.data.dtype, want=m.dtype)
    if m.nv is not None:
        ctx.check(gen.same_value(o.null, m.nv), "null_value", "null value changed", got=o.null, want=m.nv)


def f_same_crs(ctx):
    crs = ctx.choice(list(PLACES))
    m = gen_model(ctx, crs)
    r = gen.build(ctx, m)
    gb = target(ctx, m, crs)
    out = rts.warp.reproject(r, gb, "nearest") if ctx.chance(0.5) else r.reproject(gb)
    o = gen.Obs(out)
    wx, wy = check_target(ctx, r, o, gb, crs)
    after(ctx, m, o)
    x0, y0, rx, ry = origin(m)
    PX, PY = np.meshgrid((wx - x0) / rx, (y0 - wy) / ry)
    judge_nearest(ctx, m, o, PX, PY, 2e-5 if crs != "EPSG:4326" else 1e-4, m.nv)


def f_other_crs(ctx):
    pairs = [(a, b) for a in PLACES for b in PLACES if a != b]
    src, dst = ctx.enum(pairs)
    ctx.count("crs_pairs")
    m = gen_model(ctx, src)
    r = gen.build(ctx, m)
    how = ctx.choice(["crs", "geobox", "epsg", "resolution"])
    ctx.describe(src=src, dst=dst, how=how)
    tr = pyproj.Transformer.from_crs(dst, src, always_xy=True)
    inv = pyproj.Transformer.from_crs(src, dst, always_xy=True)
    x0, y0, rx, ry = origin(m)
    cx, cy = inv.transform([m.x[0], m.x[-1], m.x[0], m.x[-1]], [m.y[0], m.y[0], m.y[-1], m.y[-1]])
    if how == "geobox":
        n = ctx.int(4, 24)
        W, H = max(cx) - min(cx), max(cy) - min(cy)
        d = max(W, H) / n * ctx.rng.uniform(0.7, 1.5)
        gb = GeoBox((ctx.int(3, n + 3), ctx.int(3, n + 3)), Affine(d, 0, min(cx) - d * ctx.rng.uniform(-1, 2), 0, -d, max(cy) + d * ctx.rng.uniform(-1, 2)), dst)
        if ctx.chance(0.15):  # nothing in common with the source
            far = ctx.choice([2, 3, -2, 8]) * max(W, H) * (1 + 3 / n)
            gb = GeoBox(gb.shape, Affine.translation(*ctx.choice([(far, 0), (0, far), (far, far)])) * gb.affine, dst)
            ctx.count("apart")
        out = r.reproject(gb)
        o = gen.Obs(out)
        wx, wy = check_target(ctx, r, o, gb, dst)
    else:
        arg = int(dst[5:]) if how == "epsg" else dst
        if how == "resolution":
            d = max(max(cx) - min(cx), max(cy) - min(cy)) / ctx.int(3, 20)
            out = r.reproject(arg, resolution=d)
        else:
            out = r.reproject(arg)
        if out.shape[1] * out.shape[2] > 20000:
            raise Skip("large target")
        o = gen.Obs(out)
        ctx.check(gen.crs_same(o.crs, dst), "grid:crs", got=o.crs, want=dst)
        wx, wy = o.x, o.y
        sx, sy = abs(o.affine.a), abs(o.affine.e)
        if how == "resolution":
            ctx.check(abs(sx - d) < 1e-6 * d and abs(sy - d) < 1e-6 * d, "grid:resolution", "not the requested resolution", got=(sx, sy), want=d)
        # the target covers the source
        ex, ey = inv.transform(*np.meshgrid(m.x, m.y))
        ctx.check(wx[0] - sx / 2 <= ex.min() and ex.max() <= wx[-1] + sx / 2 and wy[-1] - sy / 2 <= ey.min() and ey.max() <= wy[0] + sy / 2,
                  "grid:coverage", "the target grid does not cover the source", x=(wx[0], wx[-1]), y=(wy[-1], wy[0]),
                  want=(ex.min(), ex.max(), ey.min(), ey.max()))
    after(ctx, m, o)
    X, Y = np.meshgrid(wx, wy)
    SX, SY = tr.transform(X, Y)
    judge_nearest(ctx, m, o, (SX - x0) / rx, (y0 - SY) / ry, 0.13, m.nv)


def f_same_grid(ctx):
    ctx.count("identity_cases")
    crs = ctx.choice(list(PLACES))
    m = gen_model(ctx, crs)
    r = gen.build(ctx, m)
    how = ctx.choice(["geobox", "crs", "equal_geobox"])
    if how == "crs":
        rx, ry = step(m)
        if abs(rx - ry) > 1e-9 * rx:
            raise Skip("non-square cells are made square when only the CRS is given")
        out = r.reproject(crs)
        gb = r.geobox
    else:
        x0, y0, rx, ry = origin(m)
        gb = r.geobox if how == "geobox" else GeoBox(m.shape[1:], Affine(rx, 0, x0, 0, -ry, y0), crs)
        out = r.reproject(gb, resample_method=ctx.choice(["nearest", "bilinear", "average", "mode"]))
    o = gen.Obs(out)
    check_target(ctx, r, o, gb, crs)
    ctx.check(o.data.shape == m.shape, "identity:shape", got=o.data.shape, want=m.shape)
    ctx.check(np.array_equal(o.mask, m.mask), "identity:mask", got=o.mask, want=m.mask)
    ctx.check(gen.arrays_same(o.data[m.valid], m.data[m.valid], rtol=1e-7 if m.dtype.kind == "f" else 0, atol=1e-9 if m.dtype.kind == "f" else 0), "identity:values",
              got=o.data, want=m.data)
    ctx.count("cells_judged", m.data.size)
    ctx.interesting(m.valid.any())


def f_same_numbers(ctx):
    """The destination has the shape and the geotransform of the source, but another CRS."""
    src, dst = ctx.enum([("EPSG:32611", "EPSG:32612"), ("EPSG:4326", "EPSG:4269"), ("EPSG:5070", "EPSG:3857"), ("EPSG:3857", "EPSG:5070"), ("EPSG:32612", "EPSG:32611"),
                         ("EPSG:4269", "EPSG:4326")])
    base = src if src in PLACES else {"EPSG:32612": "EPSG:32611", "EPSG:4269": "EPSG:4326"}[src]
    ny, nx = ctx.int(2, 18), ctx.int(2, 18)
    m = gen.model(ctx, shape=(ctx.int(1, 3), ny, nx), crs=src, grid=place(ctx, base, ny, nx), dtypes=DT, unburned=ctx.chance(0.25))
    r = gen.build(ctx, m)
    gb = GeoBox(m.shape[1:], r.affine, dst)
    ctx.describe(src=src, dst=dst)
    ctx.count("same_numbers")
    out = r.reproject(gb) if ctx.chance(0.5) else rts.warp.reproject(r, gb, "nearest")
    o = gen.Obs(out)
    wx, wy = check_target(ctx, r, o, gb, dst)
    after(ctx, m, o)
    x0, y0, rx, ry = origin(m)
    SX, SY = pyproj.Transformer.from_crs(dst, src, always_xy=True).transform(*np.meshgrid(wx, wy))
    PX, PY = (np.nan_to_num(np.clip(v, -1e6, 1e6), nan=-1e6) for v in ((SX - x0) / rx, (y0 - SY) / ry))
    judge_nearest(ctx, m, o, PX, PY, 0.13, m.nv)
    ctx.interesting()


def f_resolution(ctx):
    crs = ctx.choice(["EPSG:5070", "EPSG:3857", "EPSG:32611"])
    m = gen_model(ctx, crs, small=True)
    r = gen.build(ctx, m)
    x0, y0, rx, ry = origin(m)
    res = rx * ctx.choice([0.5, 0.25, 2.0, 3.0, 1.5, 0.7])
    if m.x.size * rx / res > 80 or m.y.size * ry / res > 120:
        raise Skip("large target")
    resy, arg = res, res
    if ctx.chance(0.4):  # (x, y)
        resy = ry * ctx.choice([0.5, 2.0, 3.0, 1.5, 0.7])
        arg = ctx.choice([(res, resy), [res, resy]])
        ctx.count("tuple_resolutions")
    ctx.describe(resolution=arg)
    out = rts.warp.reproject(r, resolution=arg) if ctx.chance(0.5) else r.reproject(resolution=arg)
    o = gen.Obs(out)
    ctx.check(gen.crs_same(o.crs, crs), "grid:crs", got=o.crs, want=crs)
    sx, sy = abs(o.affine.a), abs(o.affine.e)
    ctx.check(abs(sx - res) < 1e-6 * res and abs(sy - resy) < 1e-6 * resy, "grid:resolution", "not the requested resolution", got=(sx, sy), want=(res, resy))
    W, H = m.x.size * rx, m.y.size * ry
    ctx.check(abs(o.x[0] - sx / 2 - x0) <= sx and abs(o.y[0] + sy / 2 - y0) <= sy, "grid:origin", got=(o.x[0], o.y[0]), want=(x0, y0))
    ctx.check(abs(o.x.size * sx - W) <= 2 * sx and abs(o.y.size * sy - H) <= 2 * sy, "grid:extent", got=(o.x.size * sx, o.y.size * sy), want=(W, H))
    after(ctx, m, o)
    PX, PY = np.meshgrid((o.x - x0) / rx, (y0 - o.y) / ry)
    judge_nearest(ctx, m, o, PX, PY, 2e-5, m.nv)


def f_aggregate(ctx):
    """Integer factors: every destination cell is the statistic of exactly the source cells it covers."""
    crs = "EPSG:5070"
    method = ctx.enum(["average", "min", "max", "mode", "sum", "rms", "med", "q1", "q3"])
    dts = ["float32", "float64"] if method in ("rms", "sum") else ["float32", "float64", "int16", "int32", "uint8", "uint16"]
    m = gen_model(ctx, crs, small=True, dtypes=dts, kind=ctx.choice(["small", "cat", "ramp"]))
    r = gen.build(ctx, m)
    nb, ny, nx = m.shape
    kx, ky = ctx.int(1, 4), ctx.int(1, 4)
    if kx == ky == 1:
        kx = 2
    x0, y0, rx, ry = origin(m)
    ox, oy = kx * ctx.int(-1, 1), ky * ctx.int(-1, 1)
    W, H = -(-(nx - ox) // kx) + ctx.int(0, 1), -(-(ny - oy) // ky) + ctx.int(0, 1)
    if W < 2 or H < 2:
        raise Skip("one-row target")
    gb = GeoBox((H, W), Affine(rx * kx, 0, x0 + ox * rx, 0, -ry * ky, y0 - oy * ry), crs)
    ctx.describe(method=method, k=(ky, kx), offset=(oy, ox), target=(H, W))
    out = rts.warp.reproject(r, gb, method)
    o = gen.Obs(out)
    check_target(ctx, r, o, gb, crs)
    after(ctx, m, o)
    isint = m.dtype.kind != "f"
    tol = 0.51 if isint else 0
    for b in range(nb):
        for i in range(H):
            for j in range(W):
                ys = slice(max(0, oy + i * ky), max(0, oy + (i + 1) * ky))
                xs = slice(max(0, ox + j * kx), max(0, ox + (j + 1) * kx))
                v = m.data[b, ys, xs][~m.mask[b, ys, xs]].astype("f8")
                g, gm = float(o.data[b, i, j]), bool(o.mask[b, i, j])
                ctx.count("aggregated_cells")
                # GDAL gives cells across or right along the border of the source the value of edge cells
                far = oy + i * ky > ny + ky or oy + (i + 1) * ky < -ky or ox + j * kx > nx + kx or ox + (j + 1) * kx < -kx
                full = oy + i * ky >= 0 and oy + (i + 1) * ky <= ny and ox + j * kx >= 0 and ox + (j + 1) * kx <= nx
                if not full and not far:
                    w = m.data[b][m.valid[b]].astype("f8")
                    if not gm and w.size and method != "sum":
                        ctx.check(w.min() - 1 <= g <= max(w.max(), np.abs(w).max()) + 1, "aggregate:invented", "a value outside the source's range", method=method, got=g)
                    continue
                if v.size == 0:
                    ctx.count("null_expected")
                    # weights of about 1e-16 leave rounding noise in weighted sums
                    noise = method == "sum" and abs(g) <= 1e-9
                    ctx.check(gm or noise, "aggregate:null", "no valid source cell, but a value", method=method, got=g, cell=(b, i, j))
                    continue
                ctx.interesting(v.size > 1)
                t = tol + 1e-5 * np.abs(v).max() + 1e-9
                if isint and m.nv is not None:
                    t += 1  # GDAL moves results that round to the null value to a neighbouring integer
                elif m.nv is not None and not np.isnan(m.nv):
                    t += 1e-5 * abs(m.nv)
                if gm:
                    # a rounded result may coincide with the null value
                    if method in ("average", "sum", "rms", "med", "q1", "q3") and m.nv is not None and not np.isnan(m.nv) and v.min() - 1 <= m.nv <= v.max() + 1:
                        continue
                    ctx.fail("aggregate:lost", f"{method}: valid source cells, but null", cell=(b, i, j), source=v)
                if method == "average":
                    ok = abs(g - v.mean()) <= t
                elif method in ("min", "max"):
                    ok = g == getattr(v, method)()
                elif method == "sum":
                    ok = abs(g - v.sum()) <= t * v.size
                elif method == "rms":
                    ok = abs(g - np.sqrt((v**2).mean())) <= t
                elif method == "mode":
                    u, c = np.unique(v, return_counts=True)
                    ok = g in u[c == c.max()]
                else:
                    q = {"med": 0.5, "q1": 0.25, "q3": 0.75}[method]
                    s = np.sort(v)
                    k = q * (s.size - 1)
                    ok = s[max(0, int(np.floor(k)) - 1)] - t <= g <= s[min(s.size - 1, int(np.ceil(k)) + 1)] + t
                ctx.count("cells_judged")
                ctx.check(ok, "aggregate:" + method, f"{method} of the covered source cells is wrong", got=g, source=v, cell=(b, i, j))


def f_interpolate(ctx):
    """Interpolating methods keep constants (all of them) and planes (bilinear, cubic) and ignore nulls."""
    crs = "EPSG:5070"
    method = ctx.enum(["bilinear", "cubic", "cubic_spline", "lanczos"])
    plane = method in ("bilinear", "cubic") and ctx.chance(0.5)
    m = gen_model(ctx, crs, small=True, dtypes=["float32", "float64"] if plane else ["float32", "float64", "int16", "uint8", "int32"],
                  mask_style="none" if plane else None, kind="small", nv=None)
    nb, ny, nx = m.shape
    x0, y0, rx, ry = origin(m)
    if plane:
        a, b_, c = ctx.rng.uniform(-3, 3, 3).round(2)
        m.data = np.broadcast_to(a * np.arange(nx)[None, None, :] + b_ * np.arange(ny)[None, :, None] + c + 500, m.shape).astype(m.dtype).copy()
        m.mask[:] = False
    else:
        const = m.dtype.type(ctx.int(2, 100))
        if m.nv is not None and const == m.nv:
            const = m.dtype.type(const + 1)
        m.data = np.where(m.mask, m.data, const).astype(m.dtype)
    # interpolation across chunk borders is a known finding of C04
    r = gen.build(ctx, m, chunks=((ny,), (nx,)) if plane else None)
    gb = target(ctx, m, crs)
    ctx.describe(method=method, plane=plane)
    out = rts.warp.reproject(r, gb, method)
    o = gen.Obs(out)
    wx, wy = check_target(ctx, r, o, gb, crs)
    after(ctx, m, o)
    PX, PY = np.meshgrid((wx - x0) / rx, (y0 - wy) / ry)
    far = 0 if gb.affine.a <= rx and -gb.affine.e <= ry else 1
    for b in range(nb):
        g, gm = o.data[b].astype("f8"), o.mask[b]
        outside = (PX < -1e-6) | (PX > nx + 1e-6) | (PY < -1e-6) | (PY > ny + 1e-6)
        ctx.count("null_expected", outside.sum())
        ctx.check(gm[outside].all(), "interpolate:outside", "a cell with its centre outside the source has a value", method=method, got=np.where(gm, -1, g))
        ctx.count("cells_judged", g.size)
        if plane:
            if far:
                continue
            inner = (PX > 3) & (PX < nx - 3) & (PY > 3) & (PY < ny - 3)
            want = a * (PX - 0.5) + b_ * (PY - 0.5) + c + 500
            ctx.interesting(inner.any())
            ctx.check(not gm[inner].any() and np.allclose(g[inner], want[inner], atol=2e-3), "interpolate:plane",
                      f"{method} does not keep a plane", got=np.where(inner, g, 0), want=np.where(inner, want, 0))
        else:
            ctx.interesting((~gm).any())
            t = 1e-3 if m.dtype.kind == "f" else 0
            ctx.check((np.abs(g[~gm] - float(const)) <= t).all(), "interpolate:constant", f"{method} changes a constant raster: nulls leak into it",
                      got=np.where(gm, -1, g), want=const)
            # a destination cell whose centre lies well inside a valid region is valid
            if m.valid[b].all():
                ins = (PX > 0.01) & (PX < nx - 0.01) & (PY > 0.01) & (PY < ny - 0.01)
                ctx.check(not gm[ins].any(), "interpolate:lost", "null inside a fully valid source", method=method, got=gm)


def f_identity_geotransform(ctx):
    """Rasters whose geotransform is GDAL's default one, (0, 1, 0, 0, 0, -1): see known_findings.json."""
    ny, nx = 4, 6
    data = np.arange(24, dtype="f8").reshape(1, 4, 6) + 1
    m = gen.M(data, np.zeros(data.shape, bool), None, np.arange(nx) + 0.5, -0.5 - np.arange(ny), "EPSG:5070")
    ctx.note(ctx.index)
    r = gen.build(ctx, m, chunks=((ny,), (nx,)))
    gb = GeoBox((4, 6), Affine(1, 0, 2, 0, -1, -1), "EPSG:5070")
    o = gen.Obs(r.reproject(gb))
    wx, wy = check_target(ctx, r, o, gb, "EPSG:5070")
    PX, PY = np.meshgrid(wx, -wy)
    want = np.full((1, 4, 6), -1.0)
    want[0, :3, :4] = data[0, 1:, 2:]
    got = np.where(o.mask, -1, o.data)
    ctx.check(np.array_equal(got, want), "identity_geotransform", "raster with GDAL's default geotransform is misplaced", got=got, want=want)


def f_errors(ctx):
    crs = "EPSG:5070"
    m = gen_model(ctx, crs)
    r = gen.build(ctx, m)
    k = ctx.enum(["method", "nothing", "resolution"])
    if k == "method":
        expect_raises(ctx, "errors:method", lambda: rts.warp.reproject(r, "EPSG:3857", "nearset"))
    elif k == "nothing":
        expect_raises(ctx, "errors:nothing", lambda: rts.warp.reproject(r))
    else:
        expect_raises(ctx, "errors:resolution", lambda: rts.warp.reproject(r, resolution=ctx.choice([0, -3.0, (0, 1), (2, -1), (1, 2, 3)])))
    ctx.interesting()


FAMILIES = {
    "same_crs": (f_same_crs, 240, 4000),
    "other_crs": (f_other_crs, 240, 4000),
    "same_grid": (f_same_grid, 60, 600),
    "same_numbers": (f_same_numbers, 36, 360),
    "resolution": (f_resolution, 100, 1500),
    "aggregate": (f_aggregate, 180, 3000),
    "interpolate": (f_interpolate, 160, 2500),
    "identity_geotransform": (f_identity_geotransform, 1, 1),
    "errors": (f_errors, 15, 30),
}
