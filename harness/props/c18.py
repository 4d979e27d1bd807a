"""C18: aggregation and local statistics use exactly the right cells."""
import numpy as np

from raster_tools import general
from core import expect_raises
from gen import M, Obs, arrays_same, build, check_grid, check_wellformed, model, same_value
from props.c16 import stat_ref

PROP = "C18"
RULE = ("aggregate() with every statistic and factor (1 to larger than a chunk, not dividing the shape) and local_stats() with "
        "every statistic over 1-6 bands, on random rasters (all integer dtypes, half/single/double floats, null patterns, chunk "
        "layouts down to one cell), compared with a plain numpy gather of exactly the covered valid cells. Non-trivial: nulls "
        "present, several chunks or trimmed edges.")
DT = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "float16"]
AGG = ["max", "mean", "median", "min", "prod", "std", "sum", "var", "asm", "entropy", "mode", "unique"]
LOC = AGG + ["minband", "maxband"]


def full_ref(v, stat):
    """v (K, ...) with NaN for absent cells -> statistic of the present ones, NaN when none."""
    n = (~np.isnan(v)).sum(0)
    if stat == "prod":
        out = np.where(np.isnan(v), 1.0, v).prod(0)
    elif stat in ("minband", "maxband"):
        sgn = 1 if stat == "minband" else -1
        out = np.argmin(np.where(np.isnan(v), np.inf, sgn * v), 0).astype("f8")
    else:
        out = stat_ref(v, stat)
    return np.where(n > 0, out, np.nan), n


def make(ctx, stat, **kw):
    cat = stat in ("mode", "unique", "asm", "entropy", "minband", "maxband", "prod")
    m = model(ctx, dtypes=DT, kind="cat" if cat and ctx.chance(0.75) else "small", unburned=ctx.chance(0.2), **kw)
    if stat == "prod":
        # products stay exactly representable
        d = (np.abs(m.data.astype("f8")) % 3).astype(m.dtype)
        if m.nv is not None and m.nv in (0, 1, 2):
            d[d == m.dtype.type(m.nv)] = 2 if m.nv != 2 else 1
        m.data = np.where(m.mask, m.data, d).astype(m.dtype)
    if m.dtype == np.float16:
        d = np.round(np.clip(m.data.astype("f8"), -50, 50))
        if m.nv is not None:
            d[d == m.nv] = 3 if m.nv != 3 else 4
        m.data = np.where(m.mask, m.data, d).astype("f2")
    return m


def judge(ctx, o, m, want, n, stat, key, res_n):
    masked = m.nv is not None
    wm = (n == 0) if masked else np.zeros(n.shape, bool)
    check_wellformed(ctx, o, key + ":form")
    ctx.check(o.data.shape == want.shape, key + ":shape", got=o.data.shape, want=want.shape)
    ctx.check(np.array_equal(o.mask, wm), key + ":mask", "wrong cells are null", got=o.mask.astype(int), want=wm.astype(int))
    ctx.check((o.null is None) == (not masked), key + ":null_value", got=o.null)
    v = ~wm
    ctx.count("cells_compared", v.sum())
    ctx.count("empty_cells", wm.sum())
    exact = stat in ("min", "max", "mode", "unique", "minband", "maxband") or (stat in ("sum", "prod") and m.dtype.kind in "ui")
    if exact:
        rtol = atol = 0
    elif m.dtype == np.float16 and stat not in ("asm", "entropy"):
        # half precision input without promotion: the library computes in half precision
        rtol, atol = 2e-2, 3e-1 if stat in ("var", "sum") else 6e-2
    elif m.dtype.itemsize <= 2 or m.dtype == np.float32:
        rtol, atol = 2e-4, 2e-3
    else:
        rtol, atol = 1e-9, 1e-9
    g, w = o.data[v].astype("f8"), want[v]
    ctx.check(np.allclose(g, w, rtol=rtol, atol=atol), key + ":values", "wrong statistic", got=np.where(v, o.data, 0), want=np.where(v, want, 0))
    if stat in ("mode",) or (not masked and stat in ("min", "max")):
        ctx.check(o.data.dtype == m.dtype, key + ":dtype", got=o.data.dtype, want=m.dtype)
    if stat in ("mean", "std", "var", "median", "asm", "entropy"):
        ctx.check(o.data.dtype.kind == "f", key + ":dtype", got=o.data.dtype)
    ctx.count("stat:" + key)


def unchanged(ctx, r, m, key):
    o = Obs(r)
    ctx.check(arrays_same(o.data, m.data) and np.array_equal(o.mask, m.mask) and same_value(o.null, m.nv), key + ":input_changed",
              got=o.data, want=m.data)


def fam_aggregate(ctx):
    stat = ctx.enum(AGG)
    m = make(ctx, stat, min_side=2, max_side=13)
    nb, ny, nx = m.shape
    for _ in range(20):
        fy, fx = ctx.int(1, min(5, ny)), ctx.int(1, min(5, nx))
        if (fy, fx) != (1, 1):
            break
    else:
        fy = 2
    if stat == "prod" and fy * fx > 20:
        fy = 2
    r = build(ctx, m)
    ctx.note("agg", stat, fy, fx)
    ctx.describe(stat=stat, factor=(fy, fx))
    cy, cx = ny // fy, nx // fx
    z = m.data.astype("f8")
    z[m.mask] = np.nan
    z = z[:, :cy * fy, :cx * fx].reshape(nb, cy, fy, cx, fx)
    v = np.moveaxis(z, (2, 4), (0, 1)).reshape(fy * fx, nb, cy, cx)
    want, n = full_ref(v, stat)
    ctx.interesting(m.mask.any() or ny % fy or nx % fx or max(len(c) for c in r.data.chunks[1:]) > 1)
    ctx.count("trimmed", bool(ny % fy or nx % fx))
    arg = ctx.choice([(fy, fx), [fy, fx], np.array([fy, fx])])
    o = Obs(general.aggregate(r, arg, stat if ctx.chance(0.7) else stat.upper()))
    grid = M(None, None, None, m.x[:cx * fx].reshape(cx, fx).mean(1), m.y[:cy * fy].reshape(cy, fy).mean(1), m.crs)
    check_grid(ctx, o, grid, "aggregate:grid")
    judge(ctx, o, m, want, n, stat, "aggregate:" + stat, fy * fx)
    unchanged(ctx, r, m, "aggregate")


def fam_local(ctx):
    stat = ctx.enum(LOC)
    nb = ctx.int(1, 6)
    m = make(ctx, stat, shape=(nb, ctx.int(1, 9), ctx.int(1, 9)))
    r = build(ctx, m)
    ctx.note("local", stat)
    ctx.describe(stat=stat)
    z = m.data.astype("f8")
    z[m.mask] = np.nan
    want, n = full_ref(z, stat)
    ctx.interesting(nb > 1 and (m.mask.any() or max(len(c) for c in r.data.chunks[1:]) > 1))
    o = Obs(general.local_stats(r, stat))
    check_grid(ctx, o, m, "local:grid")
    judge(ctx, o, m, want[None], n[None], stat, "local:" + stat, nb)
    unchanged(ctx, r, m, "local")


def fam_big(ctx):
    """Large windows and many bands: the counts and sums must not wrap."""
    stat = ctx.enum(["sum", "unique", "mode", "mean", "max"])
    dt = ctx.choice(["uint8", "int8", "uint16", "int16"])
    nulls = ctx.chance(0.5)
    ii = np.iinfo(dt)
    if ctx.chance(0.5):
        f = ctx.choice([(16, 16), (17, 16), (20, 15)])
        shape = (1, f[0] * 2, f[1])
    else:
        f = None
        shape = (ctx.choice([255, 256, 257, 130]), 1, 2)
    data = ctx.rng.integers(max(ii.min, -3000) + 1, min(ii.max, 3000), shape).astype(dt)
    m = model(ctx, dtype=dt, shape=shape, nulls=False)
    m.data = data
    if nulls:
        m.nv = int(ii.max)
        m.mask = ctx.rng.random(shape) < 0.1
        m.data = np.where(m.mask, ii.max, data).astype(dt)
    r = build(ctx, m)
    z = m.data.astype("f8")
    z[m.mask] = np.nan
    ctx.note(stat, f)
    ctx.describe(stat=stat, factor=f)
    ctx.interesting()
    if f:
        v = np.moveaxis(z.reshape(1, 2, f[0], 1, f[1]), (2, 4), (0, 1)).reshape(f[0] * f[1], 1, 2, 1)
        o = Obs(general.aggregate(r, f, stat))
    else:
        v = z[:, None]
        o = Obs(general.local_stats(r, stat))
    want, n = full_ref(v, stat)
    judge(ctx, o, m, want, n, stat, ("aggregate:" if f else "local:") + stat, v.shape[0])
    ctx.count("big_windows")


def fam_refuse(ctx):
    m = model(ctx, min_side=2, max_side=5)
    r = build(ctx, m)
    bad = ctx.enum([((1, 1), "mean"), ((0, 2), "mean"), ((2, 2, 2), "mean"), ((2, 2), "nope"), ((1.5, 2), "mean"), ((2, 2), 3), ((2, -1), "max")])
    ctx.note(str(bad))
    expect_raises(ctx, "aggregate:accepted_bad_argument", lambda: general.aggregate(r, *bad), ValueError, TypeError)
    expect_raises(ctx, "local:accepted_bad_argument", lambda: general.local_stats(r, ctx.choice(["nope", 3])), ValueError, TypeError)


FAMILIES = {"aggregate": (fam_aggregate, 240, 4000), "local": (fam_local, 240, 4000), "big": (fam_big, 30, 300), "refuse": (fam_refuse, 7, 7)}
REQUIRED = (["trimmed", "empty_cells", "big_windows"] + ["stat:aggregate:" + s for s in AGG] + ["stat:local:" + s for s in LOC])
