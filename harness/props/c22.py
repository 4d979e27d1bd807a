"""C22: proximity finds the nearest target."""
import numpy as np

from raster_tools import distance as D
from core import expect_raises
from gen import Obs, build, check_grid, check_wellformed, model, same_value
from vec import extent

PROP = "C22"
RULE = ("Random target sets (none, one, sparse, dense, walls; chosen by value lists or as the non-zero cells) on 1-3 band rasters of every dtype, null "
        "pattern, cell shape and chunk layout, every metric (great circle in both hemispheres) and maximum distances from below one cell to beyond the "
        "raster and exactly at cell distances; proximity, direction and allocation of every cell are compared with all targets by brute force, and must "
        "agree on one of them. Non-trivial: several chunks, at least two targets.")
METRICS = {None: "e", "euclidean": "e", "taxi": "t", "taxicab": "t", "manhatten": "t", "city_block": "t", "chebyshev": "c", "chessboard": "c",
           "haversine": "h", "great_circle": "h"}
R = 6371009.0


def dist(kind, x, y, tx, ty):
    """Distances of all cells (ny, nx) to all targets (n): (ny, nx, n)."""
    X, Y = np.meshgrid(x, y)
    X, Y = X[..., None], Y[..., None]
    if kind == "h":
        # spherical law by vectors: independent of the half-angle formula
        def vec(lon, lat):
            lon, lat = np.radians(lon), np.radians(lat)
            return np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat) + 0 * lon
        a, b = vec(X, Y), vec(tx, ty)
        chord = np.sqrt(sum((p - q) ** 2 for p, q in zip(a, b)))
        return 2 * R * np.arcsin(np.clip(chord / 2, 0, 1))
    dx, dy = abs(X - tx), abs(Y - ty)
    return {"e": np.hypot(dx, dy), "t": dx + dy, "c": np.maximum(dx, dy)}[kind]


def bearing(x, y, tx, ty):
    X, Y = np.meshgrid(x, y)
    dx, dy = tx - X[..., None], ty - Y[..., None]
    th = np.degrees(np.arctan2(dx, dy)) % 360
    return np.where((dx == 0) & (dy == 0), 0.0, np.where(th == 0, 360.0, th))


def targets_of(m, b, tv):
    d = m.data[b]
    with np.errstate(all="ignore"):
        if tv is None or len(tv) == 0:
            t = (d != 0) & np.isfinite(d.astype("f8"))
        else:
            t = np.isin(d.astype("f8"), np.asarray(tv, "f8"))
    return t & m.valid[b]


# The kernel is compiled per metric and dtype: the quick tier pairs them, and a worker keeps to one pair
PLANAR = [("e", "uint8"), ("e", "float32"), ("e", "int32"), ("t", "uint8"), ("t", "float64"), ("c", "int16"), ("c", "float32"), ("t", "int32")]
GEO = [("h", "uint8"), ("h", "float32"), ("h", "int32"), ("h", "float64")]
THOROUGH = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "float32", "float64"]


def GROUP(fam, i):
    return i if fam == "planar" else 2 if fam == "fixed" else 2 * i + 1


def cell_size(m):
    *_, rx, ry = extent(m)
    return rx, ry


def make(ctx, geo, dtypes):
    grid = None
    shape = (ctx.int(1, 2 if ctx.chance(0.3) else 1), ctx.int(2, 14), ctx.int(2, 14))
    if ctx.chance(0.15):
        shape = (1, *ctx.choice([(2, 22), (22, 2), (3, 25), (30, 3), (2, 40)]))
    line = ctx.chance(0.12)
    if line:
        n = ctx.int(2, 20)
        shape = (ctx.int(1, 2), *ctx.choice([(1, n), (n, 1), (1, 1), (1, n), (n, 1)]))
        ctx.count("one_row_or_column")
    elif geo and ctx.chance(0.3):
        shape = (1, ctx.int(2, 10), ctx.int(20, 40))
    if geo:
        rx, ry = ctx.choice([0.5, 1.0, 2.0]), ctx.choice([0.5, 1.0, 2.0])
        ny, nx = shape[1:]
        x0 = ctx.choice([-120.0, 10.0, 170.0 - nx * rx])
        top = ctx.choice([75.0, 40.0, 10.0, -20.0, -75.0 + ny * ry])
        grid = (x0 + rx * (np.arange(nx) + 0.5), top - ry * (np.arange(ny) + 0.5))
    m = model(ctx, dtypes=dtypes,
              shape=shape, kind="cat", grid=grid, crs="EPSG:4326" if geo else "rand", unburned=ctx.chance(0.2))
    # few targets
    dens = ctx.choice([0.0, 0.02, 0.06, 0.15, 0.5])
    keep = ctx.rng.random(m.shape) < dens
    if ctx.chance(0.2):
        keep[:] = False
        for _ in range(ctx.int(1, 2)):
            keep[ctx.int(0, m.shape[0] - 1), ctx.int(0, m.shape[1] - 1), ctx.int(0, m.shape[2] - 1)] = True
    vals = ctx.rng.integers(1, 6, m.shape).astype(m.dtype)
    if m.nv is not None and m.nv == m.nv:
        vals = np.where(vals == m.nv, m.dtype.type(9), vals).astype(m.dtype)
    bg = 0 if m.nv is None or m.nv != 0 else None
    data = np.where(keep, vals, m.dtype.type(0 if bg == 0 else 30))
    if bg is None and not ctx.chance(0.3):
        m.mask |= ~keep
    nul = 0 if m.nv is None else m.nv
    if m.unburned and m.mask.any():
        data[m.mask] = ctx.rng.integers(0, 6, int(m.mask.sum()))
    elif m.nv is not None:
        data[m.mask] = m.dtype.type(nul)
    m.data = data.astype(m.dtype)
    if m.dtype.kind == "f" and m.nv is None and ctx.chance(0.2):
        m.data[0, 0, 0] = np.inf
    if m.nv is None:
        m.mask[:] = False
    tv = None
    k = ctx.choice(["none", "empty", "list", "zero", "scalar", "absent"], p=[0.4, 0.05, 0.3, 0.1, 0.1, 0.05])
    if k == "empty":
        tv = []
    elif k == "list":
        tv = sorted(set(ctx.rng.integers(1, 7, ctx.int(1, 3)).tolist()))
    elif k == "zero":
        tv = [0, 2]
    elif k == "scalar":
        tv = ctx.int(1, 5)
    elif k == "absent":
        tv = [77]
    ctx.count("targets:" + k)
    ctx.describe(target_values=tv)
    return m, tv


def max_distance(ctx, m, kind):
    rx, ry = cell_size(m)
    if kind == "h":
        rx = ry = dist("h", np.array([m.x[0], m.x[0] + rx]), m.y[:1], m.x[:1], m.y[:1])[0, 1, 0]
    diag = dist(kind, m.x[[0, -1]], m.y[[0, -1]], m.x[:1], m.y[:1])[1, 1, 0]
    k = ctx.choice(["inf", "inf", "cells", "frac", "below", "beyond", "diag"])
    ctx.count("max:" + k)
    if k == "inf":
        return np.inf
    if k == "cells":
        # exactly at the distance of a cell offset
        i, j = ctx.int(0, min(6, m.shape[1] - 1)), ctx.int(0, min(6, m.shape[2] - 1))
        v = dist(kind, m.x, m.y, m.x[:1], m.y[:1])[i, j, 0]
        return float(v) if v > 0 else float(rx)
    if k == "frac":
        return float(ctx.rng.uniform(0.6, 6) * min(rx, ry))
    if k == "below":
        return float(0.4 * min(rx, ry))
    if diag <= 0:
        diag = rx
    return float(diag * (1.7 if k == "beyond" else ctx.rng.uniform(0.3, 1.0)))


def check_band(ctx, m, b, tv, kind, maxd, p, dr, al, pm, dm, am, dbl, exact):
    t = targets_of(m, b, tv)
    ti, tj = np.nonzero(t)
    ctx.check(np.array_equal(pm, dm) and np.array_equal(pm, am), "disagree:mask", "the three products disagree on the null cells", got=pm, direction=dm, allocation=am)
    if not len(ti):
        ctx.check(pm.all(), "no_target", "there is no target but cells are not null", got=p)
        ctx.count("bands_without_target")
        return
    dd = dist(kind, m.x, m.y, m.x[tj], m.y[ti])
    best = dd.min(-1)
    rx, ry = cell_size(m)
    cell = max(rx, ry)
    if kind == "h":
        cell = R * np.radians(cell)
    rt = 1e-9 if dbl else 2e-6
    eps = rt * max(1.0, np.abs(best).max()) + (1e-3 if kind == "h" else 0)
    # propagation is exact for these metrics and for up to two targets; otherwise it may miss the nearest target by a part of a cell
    slack = 0.0 if exact or kind in "tc" or len(ti) <= 2 else 0.5 * cell
    v = ~pm
    must_null = best > maxd + eps
    must_have = best < maxd - eps - slack
    ctx.check(not (v & must_null).any(), "beyond_max", "a cell farther than the maximum distance is not null", max_distance=maxd, got=p, want=best)
    ctx.check(not (pm & must_have).any(), "lost", "a cell with a target in reach is null", max_distance=maxd, got=pm.astype(int), want=best)
    ctx.check((p[v] >= best[v] - eps).all(), "too_near", "no target is that near", got=np.where(v, p, -1), want=best)
    worse = v & (p > best + eps)
    ctx.count("approximate_cells", worse.sum())
    ctx.count("cells", v.sum())
    ctx.check((p[v] <= best[v] + eps + slack).all(), "not_nearest", "a nearer target exists", got=np.where(v, p, -1), want=best, targets=np.c_[ti, tj], n=int(worse.sum()))
    if slack:
        ctx.check(worse.sum() <= max(3, 0.03 * worse.size), "not_nearest", "nearer targets exist for many cells", got=np.where(v, p, -1), want=best)
        for q in ((i, j) for i, j in np.argwhere(t & v)):
            ctx.check(p[tuple(q)] == 0, "target_zero", "a target is not at distance zero", got=p)
    # one target explains distance, direction and value at once
    br = bearing(m.x, m.y, m.x[tj], m.y[ti])
    dev = abs(br - dr[..., None])
    dev = np.minimum(dev, 360 - dev)
    at = 1e-6 if dbl else 2e-3
    same = (abs(dd - p[..., None]) <= eps) & (dev <= at)
    same &= m.data[b][ti, tj].astype("f8") == al[..., None].astype("f8")
    # north is 360 and a target itself is 0
    here = t & v
    ctx.check((dr[here] == 0).all(), "direction:target", got=dr)
    ctx.check((dr[v & ~t] > 0).all() and (dr[v] <= 360).all(), "direction:range", got=dr)
    if not same.any(-1)[v].all():
        q = tuple(np.argwhere(v & ~same.any(-1))[0])
        ctx.fail("disagree", "no target explains distance, direction and allocation together", cell=q, distance=p[q], direction=dr[q], allocation=al[q],
                 targets=[(int(i), int(j), dd[q][n], br[q][n], m.data[b][i, j]) for n, (i, j) in enumerate(zip(ti, tj))][:12], nearest=best[q])
    ctx.count("agreements", v.sum())


def case(ctx, geo):
    kind, dt = (GEO if geo else PLANAR)[ctx.index % (4 if geo else 8)]
    m, tv = make(ctx, geo, [dt] if ctx.tier == "quick" else THOROUGH)
    metric = ctx.choice([k for k, v in METRICS.items() if v == kind])
    maxd = max_distance(ctx, m, kind)
    dbl = bool(ctx.index % 2) if ctx.tier == "quick" else ctx.chance(0.5)
    if ctx.tier == "quick" and tv is not None:
        tv = float(tv) if np.isscalar(tv) else [float(t) for t in tv]
    r = build(ctx, m)
    ctx.describe(metric=metric, max_distance=maxd, double=dbl)
    ctx.note(metric, maxd, tv, dbl)
    kw = {"target_values": tv, "max_distance": maxd, "distance_metric": metric, "double_precision": dbl}
    if metric is None and ctx.chance(0.5):
        kw.pop("distance_metric")
    if ctx.chance(0.25):
        outs = D.proximity_analysis(r, **kw)
        ctx.count("joint_calls")
    else:
        outs = (D.pa_proximity(r, **kw), D.pa_direction(r, **kw), D.pa_allocation(r, **kw))
    p, d, a = [Obs(o) for o in outs]
    ft = np.dtype("f8" if dbl else "f4")
    for o, k, dt in ((p, "proximity", ft), (d, "direction", ft), (a, "allocation", m.dtype)):
        check_wellformed(ctx, o, key="form_" + k)
        check_grid(ctx, o, m, key="grid_" + k)
        ctx.check(o.data.dtype == dt, k + ":dtype", got=o.data.dtype, want=dt)
        ctx.check(o.shape == m.shape, k + ":shape", got=o.shape)
    n = 0
    for b in range(m.shape[0]):
        check_band(ctx, m, b, None if tv is None else np.atleast_1d(tv), kind, maxd, p.data[b].astype("f8"), d.data[b].astype("f8"), a.data[b],
                   p.mask[b], d.mask[b], a.mask[b], dbl, False)
        n += int(targets_of(m, b, None if tv is None else np.atleast_1d(tv)).sum())
    ctx.count("metric:" + kind)
    ctx.interesting(max(len(c) for c in r.data.chunks[1:]) > 1 and n > 1)


def fam_planar(ctx):
    case(ctx, False)


def fam_geo(ctx):
    case(ctx, True)


# Small layouts of three and more targets in which the two-pass scan is known to report a target that is not the nearest one
LAYOUTS = [(5, 4, [(1, 3), (3, 2), (4, 1)]), (5, 5, [(0, 4), (1, 2), (3, 1), (4, 0)]), (7, 8, [(1, 7), (3, 6), (5, 1)])]
# ... and larger regular ones in which it is exact
EXACT = [(9, 9, [(4, 4)]), (12, 7, [(0, 0), (11, 6)]), (15, 15, [(i, j) for i in range(0, 15, 5) for j in range(0, 15, 5)]), (10, 10, [(i, 3) for i in range(10)])]


def fam_fixed(ctx):
    ny, nx, t = ctx.enum(LAYOUTS + EXACT)
    m = model(ctx, dtype="int32" if ctx.tier == "quick" else "float64", shape=(1, ny, nx), nulls=False, kind="cat", grid=(np.arange(nx) + 0.5, -np.arange(ny) - 0.5))
    m.data[:] = 0
    for n, (i, j) in enumerate(t):
        m.data[0, i, j] = n + 1
    p = Obs(D.pa_proximity(build(ctx, m), double_precision=True)).data[0]
    ti, tj = np.array(t).T
    best = dist("e", m.x, m.y, m.x[tj], m.y[ti]).min(-1)
    ctx.note(ny, nx, t)
    ctx.count("fixed_layouts")
    bad = np.argwhere(abs(p - best) > 1e-9)
    ctx.check(not len(bad), "layout_%dx%d_%s" % (ny, nx, "".join("%d%d" % q for q in t)) + ("_cell_%d_%d" % tuple(bad[0]) if len(bad) == 1 else "_cells"),
              "not the nearest target", cells=bad, got=p, want=best)


def fam_refuse(ctx):
    k = ctx.enum(["metric", "max_zero", "max_negative", "nan_target", "targets_2d", "lat", "lon"])
    ctx.note(k)
    g = None
    if k in ("lat", "lon"):
        g = (np.arange(4) * 1.0 + (179 if k == "lon" else 0) - (3 if k == "lat" else 0) + (180 if k == "lon" else 0), 92.0 - np.arange(4))
    m = model(ctx, dtype="float32", shape=(1, 4, 4), nulls=False, grid=g)
    r = build(ctx, m)
    kw = {"metric": {"distance_metric": "nearest"}, "max_zero": {"max_distance": 0}, "max_negative": {"max_distance": -3.0}, "nan_target": {"target_values": [1, np.nan]},
          "targets_2d": {"target_values": [[1, 2], [3, 4]]}, "lat": {"distance_metric": "haversine"}, "lon": {"distance_metric": "haversine"}}[k]
    for f in (D.pa_proximity, D.pa_direction, D.pa_allocation, D.proximity_analysis):
        expect_raises(ctx, "accepted_" + k, lambda: f(r, **kw), ValueError)


FAMILIES = {"planar": (fam_planar, 200, 5000), "geo": (fam_geo, 60, 1500), "fixed": (fam_fixed, 7, 7),
            "refuse": (fam_refuse, 7, 7)}
REQUIRED = ["one_row_or_column", "metric:e", "metric:t", "metric:c", "metric:h", "joint_calls", "targets:none", "targets:list", "targets:zero", "max:inf", "max:cells", "max:frac", "max:below",
            "max:diag", "agreements", "bands_without_target"]
