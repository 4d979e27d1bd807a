"""C19: terrain products equal the documented surface formulas."""
import numpy as np

import raster_tools as rts
from raster_tools import surface
from core import expect_raises
from gen import M, Obs, build, check_cells, check_grid, check_wellformed, model, rand_chunks, rand_grid, same_value

PROP = "C19"
RULE = ("Random, planar, flat and spiky elevation rasters (all dtypes, non-square cells, null patterns, 1-3 bands, chunk "
        "layouts down to one cell) through every surface function, compared cell by cell with an independent vectorised "
        "implementation of the documented formulas; geometric identities on planes. Non-trivial: several chunks or nulls.")
NV64 = -999999.0


def windows(z):
    """The 3x3 neighbours of the interior cells of a (band,y,x) array, ESRI labels (a is the north-west)."""
    s = lambda i, j: z[:, 1 + i:z.shape[1] - 1 + i, 1 + j:z.shape[2] - 1 + j]  # noqa: E731
    return (s(-1, -1), s(-1, 0), s(-1, 1), s(0, -1), s(0, 0), s(0, 1), s(1, -1), s(1, 0), s(1, 1))


def full(inner, shape):
    out = np.full(shape, np.nan)
    if shape[1] > 2 and shape[2] > 2:
        out[:, 1:-1, 1:-1] = inner
    return out


def grad(z, rx, ry):
    a, b, c, d, e, f, g, h, i = windows(z)
    return ((c + 2 * f + i) - (a + 2 * d + g)) / (8 * rx), ((g + 2 * h + i) - (a + 2 * b + c)) / (8 * ry), e


def ref_slope(z, rx, ry, degrees=True):
    gx, gy, e = grad(z, rx, ry)
    s = np.hypot(gx, gy) + 0 * e
    return full(np.degrees(np.arctan(s)) if degrees else s, z.shape)


def ref_aspect(z, rx, ry):
    gx, gy, e = grad(z, 1, 1)
    ang = np.degrees(np.arctan2(gy, -gx))
    out = np.where(ang <= 90, 90 - ang, 450 - ang)
    return full(np.where((gx == 0) & (gy == 0), -1.0, out) + 0 * e, z.shape)


def ref_curv(z, rx, ry):
    a, b, c, d, e, f, g, h, i = windows(z)
    return full(-200 * ((d + f) / 2 - e + (b + h) / 2 - e) / (rx * ry), z.shape)


def ref_hillshade(z, rx, ry, az=315, alt=45):
    gx, gy, e = grad(z, rx, ry)
    zen = np.radians(90 - alt)
    azm = np.radians((360.0 - az + 90) % 360)
    # shading is the dot product of the surface normal and the direction of the sun
    n = np.stack([-gx, gy, np.ones_like(gx)])  # y north
    n = n / np.linalg.norm(n, axis=0)
    sun = np.array([np.sin(zen) * np.cos(azm), np.sin(zen) * np.sin(azm), np.cos(zen)])
    return full(np.maximum(255.0 * np.tensordot(sun, n, axes=1), 0) + 0 * e, z.shape)


def ref_area(z, rx, ry):
    w = [np.asarray(v, "f8") for v in windows(z)]
    e = w[4]
    ring = [(-1, -1, w[0]), (-1, 0, w[1]), (-1, 1, w[2]), (0, 1, w[5]), (1, 1, w[8]), (1, 0, w[7]), (1, -1, w[6]), (0, -1, w[3])]
    tot = 0
    for k in range(8):
        (i1, j1, z1), (i2, j2, z2) = ring[k], ring[(k + 1) % 8]
        # half-length triangle with one corner at the centre: cross product area
        p = np.stack([np.full(e.shape, j1 * rx), np.full(e.shape, i1 * ry), z1 - e]) / 2
        q = np.stack([np.full(e.shape, j2 * rx), np.full(e.shape, i2 * ry), z2 - e]) / 2
        tot = tot + 0.5 * np.linalg.norm(np.cross(p, q, axis=0), axis=0)
    return full(tot, z.shape)


def elevation(ctx, square=None, shape=None):
    kind = ctx.choice(["rand", "plane", "flat", "spike", "ints"], p=[0.4, 0.2, 0.1, 0.1, 0.2])
    nb, ny, nx = shape or (ctx.int(1, 3), ctx.int(2, 12), ctx.int(2, 12))
    dt = ctx.choice(["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64"])
    if kind in ("plane", "rand") and ctx.chance(0.6):
        dt = ctx.choice(["float32", "float64"])
    grid = rand_grid(ctx, max(ny, 2), max(nx, 2), square=square)
    m = model(ctx, dtype=dt, shape=(nb, ny, nx), kind="small", grid=grid, mask_style=ctx.choice(["sparse", "rand", "block", "none", "rowcol"]))
    if kind != "rand":
        X, Y = np.meshgrid(m.x - m.x[0], m.y - m.y[-1])
        if kind == "plane":
            p, q = ctx.rng.uniform(-2, 2, 2) if np.dtype(dt).kind == "f" else (ctx.int(0, 1) / abs(m.x[1] - m.x[0]), ctx.int(0, 1) / abs(m.y[1] - m.y[0]))
            d = (p * X + q * Y)[None] + 10 * np.arange(nb)[:, None, None]
        elif kind == "flat":
            d = np.full(m.shape, 17.0)
        elif kind == "spike":
            d = np.full(m.shape, 5.0)
            d[:, ctx.int(0, ny - 1), ctx.int(0, nx - 1)] = 90
        else:
            d = ctx.rng.integers(0, 4, m.shape).astype("f8") * 25
        d = d.astype(dt)
        if m.nv is not None:
            if not same_value(m.nv, np.nan):
                d = np.where(d == np.dtype(dt).type(m.nv), np.dtype(dt).type(11 if m.nv != 11 else 12), d)
            d = np.where(m.mask, m.nv, d).astype(dt)
        m.data = d
    return m, kind


def reference_input(m):
    z = m.data.astype("f8")
    z[m.mask] = np.nan
    return z


def judge(ctx, out, m, want, key, dtype, nv, rtol=1e-9, atol=1e-9, mask=None):
    o = Obs(out)
    check_wellformed(ctx, o, key=key + ":form")
    wm = np.isnan(want) if mask is None else mask
    check_cells(ctx, o, np.nan_to_num(want).astype(dtype), wm, key=key, rtol=rtol, atol=atol, dtype=dtype)
    check_grid(ctx, o, m, key=key + ":grid")
    ctx.check(same_value(o.null, nv), key + ":null_value", got=o.null, want=nv)
    ctx.count("surfaces:" + key)
    return o


FUNCS = ["slope", "slope_pct", "aspect", "curvature", "hillshade", "surface_area", "northing", "easting", "slope", "hillshade"]


def fam_formula(ctx):
    fn = ctx.enum(FUNCS)
    m, kind = elevation(ctx, square=True if fn == "surface_area" else None)
    r = build(ctx, m)
    rx, ry = m.x[1] - m.x[0], m.y[0] - m.y[1]
    z = reference_input(m)
    ctx.note(fn)
    ctx.describe(fn=fn, kind=kind)
    ctx.interesting(m.mask.any() or max(len(c) for c in r.data.chunks[1:]) > 1)
    tol = dict(rtol=1e-9, atol=1e-9)
    if m.dtype.itemsize <= 4 and m.dtype.kind == "f":
        tol = dict(rtol=2e-4, atol=2e-3)
    elif m.dtype.itemsize == 1:
        tol = dict(rtol=1e-4, atol=1e-3)
    if fn == "slope":
        judge(ctx, surface.slope(r), m, ref_slope(z, rx, ry), "slope", "float64", NV64, **tol)
    elif fn == "slope_pct":
        judge(ctx, surface.slope(r, degrees=False), m, ref_slope(z, rx, ry, False), "slope_pct", "float64", NV64, **tol)
    elif fn in ("aspect", "northing", "easting"):
        want = ref_aspect(z, rx, ry)
        gx, gy, e = grad(z, 1, 1)
        # nearly flat cells: the sign of rounding noise decides the angle
        noisy = full((np.hypot(gx, gy) < 1e-3).astype(float), z.shape) > 0
        exact = full(((gx == 0) & (gy == 0)).astype(float), z.shape) > 0
        ints = m.dtype.kind in "ui"
        amb = noisy & ~exact | (noisy & (not ints))
        if fn == "aspect":
            o = Obs(surface.aspect(r))
            key = "aspect"
        else:
            mode = ctx.choice(["elevation", "aspect"])
            src = r if mode == "elevation" else surface.aspect(r)
            trig = np.cos if fn == "northing" else np.sin
            want = trig(np.radians(want))
            o = Obs(getattr(surface, fn)(src, is_aspect=mode == "aspect"))
            key = fn
        check_wellformed(ctx, o, key=key + ":form")
        ctx.check(np.array_equal(o.mask, np.isnan(want)), key + ":mask", got=o.mask.astype(int), want=np.isnan(want).astype(int))
        v = ~np.isnan(want) & ~amb
        d = np.abs(o.data - want)[v]
        if fn == "aspect":
            d = np.minimum(d, 360 - d)
            ctx.check(((o.data[v] >= -1) & (o.data[v] <= 360 + 1e-9)).all(), "aspect:range", got=o.data)
            # facing exactly north is 0, not 360
            north = v & (full(((gx == 0) & (gy > 0)).astype(float), z.shape) > 0)
            ctx.check(not ints or (o.data[north] == 0).all(), "aspect:north", got=o.data[north])
            ctx.count("facing_north", north.sum() if ints else 0)
        ctx.check((d < (1e-6 if ints else 0.3 if fn == "aspect" else 6e-3)).all(), key + ":values", got=o.data, want=want)
        check_grid(ctx, o, m, key=key + ":grid")
        ctx.check(o.data.dtype == "float64", key + ":dtype", got=o.data.dtype)
        ctx.count("surfaces:" + key)
    elif fn == "curvature":
        w = dict(tol)
        w["atol"] = tol["atol"] * 100 / min(1, rx * ry) * 5
        judge(ctx, surface.curvature(r), m, ref_curv(z, rx, ry), "curvature", "float64", NV64, **w)
    elif fn == "surface_area":
        w = dict(tol)
        w["atol"] = max(tol["atol"] * rx, 1e-6 * rx * rx)
        # Heron's formula loses about half of the digits on steep slivers
        w["rtol"] = 1e-5 if m.dtype in ("float64", "int64", "uint64", "int32", "uint32") else 1e-3
        judge(ctx, surface.surface_area_3d(r), m, ref_area(z, rx, ry), "surface_area", "float64", NV64, **w)
    else:
        az, alt = ctx.choice([(315, 45), (0, 30), (90, 60), (180, 10), (270, 80), (45, 45.5), (360, 5)])
        kw = {} if (az, alt) == (315, 45) else {"azimuth": az, "altitude": alt}
        ctx.describe(az=az, alt=alt)
        ctx.note(az, alt)
        want = ref_hillshade(z, rx, ry, az, alt)
        o = Obs(surface.hillshade(r, **kw))
        check_wellformed(ctx, o, key="hillshade:form")
        # brightness 255 is the documented null value: cells lit exactly perpendicularly are ambiguous
        amb = want > 254.9
        wm = np.isnan(want)
        ctx.check(np.array_equal(o.mask[~amb], wm[~amb]), "hillshade:mask", got=o.mask.astype(int), want=wm.astype(int))
        v = ~wm & ~amb
        ctx.check(o.data.dtype == np.uint8 and o.null == 255, "hillshade:meta", got=(o.data.dtype, o.null))
        dd = o.data[v].astype("f8") - want[v]
        # truncated to an integer
        ctx.check(((dd <= 0.1) & (dd > -1.1)).all(), "hillshade:values", got=o.data, want=want)
        check_grid(ctx, o, m, key="hillshade:grid")
        ctx.count("surfaces:hillshade")


def fam_plane(ctx):
    """Geometric identities on planes z = p*x + q*y."""
    sq = ctx.chance(0.5)
    ny, nx = ctx.int(3, 12), ctx.int(3, 12)
    x, y = rand_grid(ctx, ny, nx, square=sq)
    rx, ry = x[1] - x[0], y[0] - y[1]
    ang = ctx.rng.uniform(0, 2 * np.pi)
    k = ctx.rng.uniform(0.05, 3)
    p, q = k * np.cos(ang), k * np.sin(ang)
    X, Y = np.meshgrid(x - x[0], y - y[0])
    m = M((p * X + q * Y)[None] + ctx.rng.uniform(-5, 5), np.zeros((1, ny, nx), bool), None, x, y, "EPSG:5070")
    r = build(ctx, m)
    ctx.note(p, q)
    ctx.describe(p=p, q=q)
    ctx.interesting()
    border = np.ones((1, ny, nx), bool)
    border[:, 1:-1, 1:-1] = False
    one = np.ones((1, ny, nx))
    judge(ctx, surface.slope(r), m, one * np.degrees(np.arctan(k)), "plane_slope", "float64", NV64, 1e-6, 1e-6, mask=border)
    judge(ctx, surface.slope(r, degrees=False), m, one * k, "plane_slope_pct", "float64", NV64, 1e-6, 1e-6, mask=border)
    judge(ctx, surface.curvature(r), m, one * 0, "plane_curv", "float64", NV64, 1e-6, 1e-6 * 100 / min(1, rx * ry), mask=border)
    if sq:
        # downslope direction, clockwise from north
        asp = np.degrees(np.arctan2(-p, -q)) % 360
        o = Obs(surface.aspect(r))
        d = np.abs(o.data[~border] - asp)
        ctx.check((np.minimum(d, 360 - d) < 1e-5).all(), "plane_aspect", got=o.data, want=asp)
        judge(ctx, surface.northing(r), m, one * np.cos(np.radians(asp)), "plane_northing", "float64", NV64, 1e-6, 1e-6, mask=border)
        judge(ctx, surface.easting(r), m, one * np.sin(np.radians(asp)), "plane_easting", "float64", NV64, 1e-6, 1e-6, mask=border)
        judge(ctx, surface.surface_area_3d(r), m, one * rx * ry * np.sqrt(1 + k * k), "plane_area", "float64", NV64, 1e-6, 1e-6, mask=border)
    ctx.count("planes")


def fam_tpi(ctx):
    m, kind = elevation(ctx)
    r = build(ctx, m)
    inner, outer = ctx.choice([(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (0, 3)])
    ctx.note(inner, outer)
    ctx.describe(annulus=(inner, outer), kind=kind)
    ctx.interesting()
    z = reference_input(m)
    nb, ny, nx = m.shape
    yy, xx = np.mgrid[-outer:outer + 1, -outer:outer + 1]
    # "An annulus (donut) selects the neighbourhood": documented by focal.get_focal_window
    from props.c16 import ref_window

    win = ref_window(((inner, outer),) if inner else (outer,))
    hy, hx = win.shape[0] // 2, win.shape[1] // 2
    pad = np.pad(z, ((0, 0), (hy, hy), (hx, hx)), constant_values=np.nan)
    s = np.zeros(z.shape)
    n = np.zeros(z.shape)
    for i in range(win.shape[0]):
        for j in range(win.shape[1]):
            if win[i, j]:
                w = pad[:, i:i + ny, j:j + nx]
                s += np.nan_to_num(w)
                n += ~np.isnan(w)
    with np.errstate(all="ignore"):
        mean = s / n
    raw = z - mean + 0.5
    o = Obs(surface.tpi(r, inner, outer))
    ctx.check(o.data.dtype == np.int32, "tpi:dtype", got=o.data.dtype)
    ctx.check(np.array_equal(o.x, m.x) and np.array_equal(o.y, m.y), "tpi:grid")
    v = ~np.isnan(raw)
    tol = 1e-9 if m.dtype.kind != "f" or m.dtype.itemsize == 8 else 1e-3 if m.dtype.itemsize == 4 else 0.3
    if m.dtype.kind == "f" and m.dtype.itemsize == 2:
        return
    lo, hi = np.trunc(raw - tol), np.trunc(raw + tol)
    ok = (o.data >= lo) & (o.data <= hi)
    ctx.check(ok[v].all(), "tpi:values", got=o.data, want=np.trunc(raw))
    if m.nv is not None:
        ctx.check(o.mask[m.mask].all(), "tpi:null_lost")
        ctx.check(not o.mask[v].any(), "tpi:null_gained", got=o.mask.astype(int), want=(~v).astype(int))
        ctx.check(o.null == np.iinfo("int32").min, "tpi:null_value", got=o.null)
    ctx.count("surfaces:tpi")
    ctx.count("tpi_cells", v.sum())


def fam_angles(ctx):
    """northing and easting of a raster of angles in any dtype: the cosine and sine of every valid cell."""
    dt = ctx.choice(["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64"])
    m = model(ctx, dtype=dt, kind="small", max_bands=3, max_side=9)
    hi = 127 if dt == "int8" else 255 if dt == "uint8" else 360
    a = ctx.rng.uniform(0, hi, m.shape)
    a[ctx.rng.random(m.shape) < 0.3] = ctx.choice([0, 90, 45, 120, 1])
    a = a.astype(dt)
    if m.nv is not None and not same_value(m.nv, np.nan):
        a = np.where(a == np.dtype(dt).type(m.nv), np.dtype(dt).type(11 if m.nv != 11 else 12), a)
    m.data = np.where(m.mask, m.nv, a).astype(dt) if m.nv is not None else a
    r = build(ctx, m)
    fn = ctx.enum(["northing", "easting"])
    ctx.note(fn, dt)
    ctx.interesting(m.mask.any())
    o = Obs(getattr(surface, fn)(r, is_aspect=True))
    rad = np.radians(m.data.astype("f8"))
    want = np.cos(rad) if fn == "northing" else np.sin(rad)
    check_wellformed(ctx, o, key=fn + ":angles:form")
    check_grid(ctx, o, m, key=fn + ":angles:grid")
    ctx.check(np.array_equal(o.mask, m.mask), fn + ":angles:mask", got=o.mask.astype(int), want=m.mask.astype(int))
    ctx.check(o.data.dtype.kind == "f", fn + ":angles:dtype", got=o.data.dtype)
    v = m.valid
    tol = 1e-9 if o.data.dtype.itemsize == 8 else 2e-5 if o.data.dtype.itemsize == 4 else 5e-3
    if dt == "float16":
        tol = 2e-5
        ctx.check(o.data.dtype == "float32", fn + ":angles:dtype", got=o.data.dtype)
    d = np.abs(o.data.astype("f8") - want)[v]
    ctx.check((d <= tol).all(), fn + ":angles:values", got=o.data, want=want)
    ctx.count("angle_cells", v.sum())


BAD_ANNULI = [(1.5, 3), (1, 2.5), (0.0, 2), ("1", 2), (1, None), (-1, 2), (0, 0), (1, 0), (2, 2), (3, 2), (-3, -1)]


def fam_refuse(ctx):
    """Annuli that mean nothing are refused."""
    m, kind = elevation(ctx)
    bad = ctx.enum(BAD_ANNULI)
    ctx.note(str(bad))
    expect_raises(ctx, "tpi:accepted", lambda: surface.tpi(build(ctx, m), *bad).data.compute(), ValueError, TypeError, msg=f"annulus {bad} was accepted")
    ctx.count("refused")


FAMILIES = {"formula": (fam_formula, 240, 3000), "plane": (fam_plane, 30, 300), "tpi": (fam_tpi, 40, 500), "angles": (fam_angles, 48, 700),
            "refuse": (fam_refuse, len(BAD_ANNULI), 4 * len(BAD_ANNULI))}
REQUIRED = ["planes", "tpi_cells", "refused", "angle_cells"] + ["surfaces:" + k for k in
                                      ("slope", "slope_pct", "aspect", "curvature", "hillshade", "surface_area", "northing", "easting")]
