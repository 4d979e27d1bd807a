"""C16: focal filters equal their window definition."""
import numpy as np

from raster_tools import focal
from core import expect_raises
from gen import M, Obs, build, check_cells, check_grid, check_wellformed, model, same_value, INT_DTYPES

PROP = "C16"
RULE = ("Every focal statistic, and correlate/convolve in every boundary mode, over random rasters (all integer dtypes and "
        "single/double floats, null patterns, 1-3 bands, chunks down to one cell) and windows (circles, annuli, even, odd and "
        "lopsided rectangles, windows larger than a chunk); compared with an independent gather of exactly the window's valid "
        "cells. Non-trivial: several chunks, nulls or an asymmetric window.")
STATS = ["min", "max", "mean", "median", "mode", "sum", "std", "var", "asm", "entropy", "unique"]
DT = ["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "float32", "float64"]


def gather(z, win):
    """(K, band, y, x): values of the window's cells around each cell, NaN when null or outside."""
    nb, ny, nx = z.shape
    kr, kc = win.shape
    t, b, l, r = (kr - 1) // 2, kr // 2, (kc - 1) // 2, kc // 2
    p = np.pad(z, ((0, 0), (t, b), (l, r)), constant_values=np.nan)
    return np.stack([p[:, i:i + ny, j:j + nx] for i in range(kr) for j in range(kc) if win[i, j]])


def ref_window(args):
    """The documented windows: circle of radius r (in cells), annulus (r1, r2), rectangle."""
    def circle(r):
        k = r - 1
        i, j = np.mgrid[-k:k + 1, -k:k + 1]
        return i * i + j * j <= k * k

    if len(args) == 2:
        return np.ones(args, bool)
    if isinstance(args[0], tuple):
        small, big = circle(args[0][0]), circle(args[0][1])
        o = (big.shape[0] - small.shape[0]) // 2
        big = big.copy()
        n = small.shape[0]
        big[o:o + n, o:o + n] &= ~small
        return big
    return circle(args[0])


def stat_ref(v, stat):
    n = (~np.isnan(v)).sum(0)
    if stat == "min":
        return np.where(n > 0, np.where(np.isnan(v), np.inf, v).min(0), np.nan)
    if stat == "max":
        return np.where(n > 0, np.where(np.isnan(v), -np.inf, v).max(0), np.nan)
    s = np.nansum(v, 0)
    mean = s / np.where(n > 0, n, np.nan)
    if stat == "sum":
        return s
    if stat == "mean":
        return mean
    if stat in ("std", "var"):
        var = np.nansum((v - mean) ** 2, 0) / np.where(n > 0, n, np.nan)
        return np.sqrt(var) if stat == "std" else var
    if stat == "median":
        srt = np.sort(v, 0)  # NaN last
        lo = np.take_along_axis(srt, np.maximum((n - 1) // 2, 0)[None], 0)[0]
        hi = np.take_along_axis(srt, np.minimum(n // 2, v.shape[0] - 1)[None], 0)[0]
        return np.where(n > 0, (lo + hi) / 2, np.nan)
    # counts of each cell's value among the valid values of its window
    eq = (v[:, None] == v[None]).sum(1).astype("f8")
    if stat == "mode":
        best = np.where(np.isnan(v), -1, eq).max(0)
        cand = np.where((eq == best) & ~np.isnan(v), v, np.inf)
        return np.where(n > 0, cand.min(0), np.nan)
    with np.errstate(all="ignore"):
        inv = np.where(np.isnan(v), 0, 1 / np.where(eq > 0, eq, 1))  # 1/multiplicity
        if stat == "unique":
            return np.round(inv.sum(0))
        p = np.where(np.isnan(v), 0, eq / np.where(n > 0, n, 1))
        if stat == "asm":
            return (inv * p * p).sum(0)
        return (-inv * np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0)).sum(0)


def pick_window(ctx, ny, nx):
    # dask refuses windows that reach further than the raster
    lim = min(ny, nx)
    c = []
    c += [(r,) for r in (1, 2, 3, 4) if r - 1 <= lim]
    c += [((a, b),) for a, b in ((1, 2), (1, 3), (2, 3), (2, 4)) if b - 1 <= lim]
    for _ in range(6):
        w, h = ctx.int(1, 6), ctx.int(1, 6)
        if all(k // 2 <= n if k % 2 else k <= n for k, n in ((w, ny), (h, nx))):
            c.append((w, h))
    return ctx.choice(c)


def fam_focal(ctx):
    stat = ctx.enum(STATS)
    m = model(ctx, dtypes=DT, max_bands=2, min_side=1, max_side=11,
              kind="cat" if stat in ("mode", "unique", "asm", "entropy") and ctx.chance(0.7) else "small")
    # min_side 1: the coordinates of single rows/columns carry no cell size, which focal does not need
    r = build(ctx, m)
    args = pick_window(ctx, *m.shape[1:])
    ign = m.nv is not None and ctx.chance(0.3)
    ctx.note(stat, args, ign)
    ctx.describe(stat=stat, window=args, ignore_null=ign)
    win = ref_window(args)
    got_win = focal.get_focal_window(*args)
    ctx.check(got_win.dtype == bool and np.array_equal(got_win, win), "window", got=got_win, want=win)
    even = any(s % 2 == 0 for s in win.shape)
    ctx.interesting(m.mask.any() or even or max(len(c) for c in r.data.chunks[1:]) > 1)
    kw = {"ignore_null": True} if ign else {}
    o = Obs(focal.focal(r, stat, *args, **kw))
    z = m.data.astype("f8")
    z[m.mask] = np.nan
    v = gather(z, win)
    want = stat_ref(v, stat)
    n = (~np.isnan(v)).sum(0)
    masked = m.nv is not None
    key = f"focal:{stat}"
    check_wellformed(ctx, o, key=key + ":form")
    check_grid(ctx, o, m, key=key + ":grid")
    # an empty window at a valid cell: sum/asm/entropy of nothing is 0 or null
    loose = (n == 0) & ~m.mask & np.isin(stat, ["sum", "asm", "entropy"])
    if masked:
        wm = (n == 0) if ign else (m.mask | (n == 0))
        ctx.check(o.data.dtype.kind == "f" and same_value(o.null, np.nan), key + ":null_value", got=(o.data.dtype, o.null))
        ctx.check(np.array_equal(o.mask[~loose], wm[~loose]), key + ":mask", got=o.mask.astype(int), want=wm.astype(int))
        cmp = ~wm & ~loose
    else:
        ctx.check(o.null is None and not o.mask.any(), key + ":mask_gained", got=o.null)
        cmp = n > 0
    f32 = o.data.dtype == np.float32
    rtol, atol = (2e-4, 2e-3) if f32 and stat in ("mean", "std", "var", "sum", "median", "asm", "entropy") else (1e-9, 1e-9)
    if f32 and m.dtype == np.float32 and stat in ("min", "max", "mode"):
        rtol = atol = 0
    g, w = o.data[cmp].astype("f8"), want[cmp]
    ctx.count("cells_compared", cmp.sum())
    ctx.check(np.allclose(g, w, rtol=rtol, atol=atol), key + ":values", got=o.data, want=np.where(cmp, want, np.nan))
    if not masked:
        want_kind = {"unique": "u", "mode": m.dtype.kind, "min": m.dtype.kind, "max": m.dtype.kind}.get(stat)
        if stat in ("mean", "median", "std", "var", "asm", "entropy"):
            want_kind = "f"
        if want_kind:
            ctx.check(o.data.dtype.kind == want_kind, key + ":dtype", got=o.data.dtype)
    ctx.count("stat:" + stat)
    if even:
        ctx.count("even_windows")
    if ign:
        ctx.count("ignore_null")


PADS = {"reflect": "symmetric", "nearest": "edge", "wrap": "wrap", "constant": "constant"}


def fam_correlate(ctx):
    mode = ctx.enum(["constant", "reflect", "nearest", "wrap"])
    conv = ctx.chance(0.4)
    m = model(ctx, dtypes=DT, max_bands=2, min_side=2, max_side=11, kind="cat")
    r = build(ctx, m)
    ny, nx = m.shape[1:]
    kr, kc = ctx.int(1, 6), ctx.int(1, 6)
    kr, kc = min(kr, 2 * ny - 1), min(kc, 2 * nx - 1)
    kt = ctx.choice(["int", "float", "bool", "list"])
    if kt == "bool":
        kern = ctx.rng.random((kr, kc)) < 0.5
    elif kt == "float":
        kern = np.round(ctx.rng.uniform(-2, 2, (kr, kc)), 3)
    else:
        kern = ctx.rng.integers(0 if m.dtype.kind == "u" else -1, 2, (kr, kc))
    if m.dtype.kind in "ui" and m.dtype.itemsize == 1 and kt != "float":
        # integer kernels keep the raster's dtype: stay within its range
        if np.abs(kern.astype(int)).sum() * 4 > 120:
            kern = kern[:3, :3]
    cval = ctx.choice([0.0, 0.0, 1, 2.0]) if mode == "constant" else 0.0
    arg = kern.tolist() if kt == "list" else kern
    kb = np.array(arg, copy=True)
    ctx.note(mode, conv, kern, cval)
    ctx.describe(mode=mode, conv=conv, kernel=kern, cval=cval)
    even = any(s % 2 == 0 for s in kern.shape)
    ctx.interesting(m.mask.any() or even or max(len(c) for c in r.data.chunks[1:]) > 1)
    fn = focal.convolve if conv else focal.correlate
    kw = {"cval": cval} if cval else {}
    o = Obs(fn(r, arg, mode=mode, **kw))
    ctx.check(np.array_equal(np.asarray(arg), kb), "correlate:kernel_changed")
    k = kern[::-1, ::-1] if conv else kern
    kr, kc = k.shape
    t, b, l, rr = (kr - 1) // 2, kr // 2, (kc - 1) // 2, kc // 2
    z = m.data.astype("f8")
    z[m.mask] = 0.0
    pk = {"constant_values": cval} if mode == "constant" else {}
    p = np.pad(z, ((0, 0), (t, b), (l, rr)), mode=PADS[mode], **pk)
    want = sum(float(k[i, j]) * p[:, i:i + ny, j:j + nx] for i in range(kr) for j in range(kc))
    key = "convolve" if conv else "correlate"
    check_wellformed(ctx, o, key=key + ":form")
    check_grid(ctx, o, m, key=key + ":grid")
    ctx.check(np.array_equal(o.mask, m.mask), key + ":mask", got=o.mask.astype(int), want=m.mask.astype(int))
    if m.dtype.kind in "ui":
        want_dt = np.dtype("float64") if kt == "float" else m.dtype
        ctx.check(o.data.dtype == want_dt, key + ":dtype", got=o.data.dtype, want=want_dt)
    v = m.valid
    tol = dict(rtol=1e-4, atol=1e-3) if m.dtype == np.float32 else dict(rtol=1e-9, atol=1e-9)
    ctx.count("cells_compared", v.sum())
    ctx.check(np.allclose(o.data[v].astype("f8"), want[v], **tol), key + f":{mode}:values", got=o.data, want=np.where(v, want, 0))
    ctx.count("mode:" + mode)
    if even:
        ctx.count("even_kernels")


BAD_WINDOWS = [(0,), (-1,), (1.5,), ("3",), (0, 3), (3, 0), (-2, 3), (3, -2), (2.5, 3), (3, 2.5), ((0, 2),), ((2, 2),), ((3, 2),),
               ((1, 2, 3),), ((2,),), ((1.5, 3),), ((1, 2), 3), (None,)]


def fam_refuse(ctx):
    """Windows, statistics, kernels and modes that mean nothing are refused."""
    m = model(ctx, dtypes=DT, max_bands=1, min_side=4, max_side=8)
    r = build(ctx, m)
    bad = ctx.enum(BAD_WINDOWS)
    ctx.note(str(bad))
    expect_raises(ctx, "window:accepted", lambda: focal.get_focal_window(*bad), ValueError, TypeError, msg=f"window {bad} was accepted")
    expect_raises(ctx, "focal:accepted", lambda: focal.focal(r, ctx.choice(STATS), *bad).data.compute(), ValueError, TypeError,
                  msg=f"window {bad} was accepted")
    stat = ctx.choice(["bogus", "Mean", "", None, "range", "sum "])
    expect_raises(ctx, "focal:accepted_stat", lambda: focal.focal(r, stat, 2).data.compute(), ValueError, TypeError, msg=f"{stat!r}")
    k = np.ones((3, 3))
    k[ctx.int(0, 2), ctx.int(0, 2)] = np.nan
    kern = ctx.choice([k, np.ones(3), np.ones((1, 3, 3)), np.array(2.0), [1, 2, 3]])
    fn = ctx.choice([focal.correlate, focal.convolve])
    expect_raises(ctx, "correlate:accepted_kernel", lambda: fn(r, kern).data.compute(), ValueError, TypeError, msg=f"kernel {kern} was accepted")
    mode = ctx.choice(["bogus", "", "Constant", None, "mirror"])
    expect_raises(ctx, "correlate:accepted_mode", lambda: fn(r, np.ones((3, 3)), mode=mode).data.compute(), ValueError, TypeError, msg=f"{mode!r}")
    ctx.count("refused", 5)


FAMILIES = {"focal": (fam_focal, 264, 3300), "correlate": (fam_correlate, 160, 2000), "refuse": (fam_refuse, len(BAD_WINDOWS), 4 * len(BAD_WINDOWS))}
REQUIRED = ["refused", "even_windows", "ignore_null", "even_kernels"] + ["stat:" + s for s in STATS] + ["mode:" + s for s in PADS]
