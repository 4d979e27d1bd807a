"""C17: regions, dilation and erosion equal their definitions."""
import numpy as np
from scipy import ndimage

from raster_tools import general
from core import expect_raises
from gen import M, Obs, arrays_same, build, check_cells, check_grid, check_wellformed, model, rand_chunks, same_value

PROP = "C17"
RULE = ("regions() on random, checker, spiral, comb, serpentine and diagonal-chain patterns that reconnect through other chunks, "
        "4- and 8-connectivity, several values, nulls, restricted value lists; the labels must be a bijection with the components "
        "found by an independent union-find. dilate()/erode() with every window size against a gather of the valid cells in the "
        "window. Non-trivial: the component or window crosses a chunk boundary, or nulls are present.")


def components(z, nb8):
    """Union-find labels (0 = background) of one band, equal-value non-zero 4/8-neighbours."""
    ny, nx = z.shape
    parent = list(range(ny * nx))

    def find(a):
        while parent[a] != a:
            parent[a] = parent[parent[a]]
            a = parent[a]
        return a

    offs = [(0, 1), (1, 0)] + ([(1, 1), (1, -1)] if nb8 else [])
    for i in range(ny):
        for j in range(nx):
            if z[i, j] == 0:
                continue
            for di, dj in offs:
                a, b = i + di, j + dj
                if 0 <= a < ny and 0 <= b < nx and z[a, b] == z[i, j]:
                    ra, rb = find(i * nx + j), find(a * nx + b)
                    if ra != rb:
                        parent[rb] = ra
    out = np.zeros((ny, nx), int)
    ids = {}
    for i in range(ny):
        for j in range(nx):
            if z[i, j] != 0:
                out[i, j] = ids.setdefault(find(i * nx + j), len(ids) + 1)
    return out


def pattern(ctx, ny, nx):
    k = ctx.choice(["rand", "cat", "spiral", "comb", "snake", "diag", "check", "solid"], p=[0.2, 0.25, 0.12, 0.12, 0.1, 0.1, 0.06, 0.05])
    z = np.zeros((ny, nx), int)
    if k == "rand":
        z = (ctx.rng.random((ny, nx)) < ctx.rng.uniform(0.35, 0.75)).astype(int)
    elif k == "cat":
        z = ctx.rng.integers(0, ctx.int(2, 5), (ny, nx))
    elif k == "comb":
        z[:, ::2] = 1
        z[-1 if ctx.chance(0.5) else 0] = 1
    elif k == "snake":
        z[::2] = 1
        for i in range(1, ny, 2):
            z[i, -1 if (i // 2) % 2 == 0 else 0] = 1
    elif k == "diag":
        i, j = np.mgrid[:ny, :nx]
        z = ((i + j) % 4 == 0) | ((i - j) % 4 == 0)
        z = z.astype(int)
    elif k == "check":
        i, j = np.mgrid[:ny, :nx]
        z = ((i + j) % 2).astype(int)
    elif k == "solid":
        z[:] = 1
    else:
        y = x = 0
        dy, dx = 0, 1
        z[0, 0] = 1
        for _ in range(ny * nx):
            a, b = y + dy, x + dx
            c, d = a + dy, b + dx
            ok = 0 <= a < ny and 0 <= b < nx and not (0 <= c < ny and 0 <= d < nx and z[c, d])
            if ok and z[a, b]:
                break
            if ok:
                y, x = a, b
                z[y, x] = 1
            else:
                dy, dx = dx, -dy
                a, b = y + dy, x + dx
                c, d = a + dy, b + dx
                if not (0 <= a < ny and 0 <= b < nx) or z[a, b] or (0 <= c < ny and 0 <= d < nx and z[c, d]):
                    break
    if ctx.chance(0.3) and k != "cat":
        z = z * ctx.int(1, 4)
    if ctx.chance(0.3) and k not in ("cat",):
        z = np.where(ctx.rng.random(z.shape) < 0.08, 0, z)
    return k, z


def few_chunks(ctx, ny, nx, most=8):
    for _ in range(50):
        c = rand_chunks(ctx, ny), rand_chunks(ctx, nx)
        if len(c[0]) * len(c[1]) <= most:
            return c
    return (ny,), (nx,)


def fam_regions(ctx):
    nb = ctx.choice([1, 1, 2, 3])
    ny, nx = ctx.int(1, 14), ctx.int(1, 14)
    dt = ctx.choice(["uint8", "int8", "int16", "int32", "int64", "uint16", "float32", "float64", "uint64"])
    data = np.empty((nb, ny, nx), dt)
    kinds = []
    for b in range(nb):
        k, z = pattern(ctx, ny, nx)
        kinds.append(k)
        data[b] = z
    if np.dtype(dt).kind != "u" and ctx.chance(0.3):
        data = np.where(data > 1, -data, data).astype(dt)
    if np.dtype(dt).kind == "f" and ctx.chance(0.4):
        data = data * np.asarray(0.5, dt)
    m = model(ctx, dtype=dt, shape=data.shape)
    masked = m.nv is not None
    if masked:
        nv = ctx.choice([0, 100, 250 if dt != "int8" else -100, -9999] if dt in ("int16", "int32", "int64", "float32", "float64") else [0, 100])
        if np.dtype(dt).kind == "f" and ctx.chance(0.4):
            nv = np.nan
        m.nv = nv
        if same_value(nv, 0):
            m.mask = m.mask | (data == 0)
        m.data = np.where(m.mask, np.asarray(nv).astype(dt), data).astype(dt)
    else:
        m.data = data
    n8 = ctx.chance(0.5)
    # dask_image's labelling is slow per chunk: few chunks per raster, many rasters
    r = build(ctx, m, chunks=few_chunks(ctx, ny, nx))
    z = np.where(m.mask, 0, data).astype("f8")
    kw = {}
    if ctx.chance(0.35):
        vals = np.unique(data)
        pick = ctx.rng.permutation(vals)[: ctx.int(1, len(vals))]
        pick = [v.item() for v in pick]
        if ctx.chance(0.2):
            pick = pick + [pick[0]]
        if ctx.chance(0.2):
            pick = pick + [77]
        kw["unique_values"] = pick if ctx.chance(0.6) else np.array(pick)
        z = np.where(np.isin(z, pick), z, 0)
        ctx.count("restricted")
    ctx.note(n8, str(kw))
    ctx.describe(kinds=kinds, neighbors=8 if n8 else 4, kw=kw)
    if not n8 and ctx.chance(0.3):
        o = Obs(general.regions(r, **kw))
    else:
        o = Obs(general.regions(r, 8 if n8 else 4, **kw))
    check_wellformed(ctx, o, "regions:form")
    check_grid(ctx, o, m, "regions:grid")
    ctx.check(np.array_equal(o.mask, m.mask), "regions:mask", got=o.mask.astype(int), want=m.mask.astype(int))
    ctx.check((o.null is None) == (not masked), "regions:null_value", got=o.null)
    crossing = False
    for b in range(nb):
        want = components(z[b], n8)
        v = ~m.mask[b]
        g = o.data[b]
        ctx.check(((g > 0) == (want > 0))[v].all(), "regions:cells", "labelled cells differ", got=g, want=want)
        w, gg = want[v & (want > 0)], g[v & (want > 0)]
        n = want.max() if want.size else 0
        ctx.check(sorted(set(gg.tolist())) == list(range(1, n + 1)), "regions:numbering", got=np.unique(gg), want=n)
        pairs = set(zip(w.tolist(), gg.tolist()))
        ctx.check(len(pairs) == n, "regions:partition", "labels do not match the connected components", got=g, want=want)
        ctx.count("components", n)
        if n and max(len(c) for c in r.data.chunks[1:]) > 1:
            ye = np.cumsum(r.data.chunks[1])[:-1]
            xe = np.cumsum(r.data.chunks[2])[:-1]
            crossing |= any(((want[e - 1] > 0) & (want[e] == want[e - 1])).any() for e in ye)
            crossing |= any(((want[:, e - 1] > 0) & (want[:, e] == want[:, e - 1])).any() for e in xe)
    if crossing:
        ctx.count("chunk_crossing")
    ctx.interesting(crossing or (m.mask.any() and (z != 0).any()))


def morph_ref(m, size, op):
    nb, ny, nx = m.shape
    kr, kc = size
    # dilation looks (k-1)//2 up/left and k//2 down/right, erosion the mirror image
    t, b, l, r = (kr - 1) // 2, kr // 2, (kc - 1) // 2, kc // 2
    if op == "erode":
        t, b, l, r = b, t, r, l
    obj = m.data.astype(object)
    pv = np.pad(m.valid, ((0, 0), (t, b), (l, r)))
    pd = np.pad(obj, ((0, 0), (t, b), (l, r)), constant_values=0)
    out = np.zeros(m.shape, m.dtype)
    valid = np.zeros(m.shape, bool)
    for k in range(nb):
        for i in range(ny):
            for j in range(nx):
                w = pv[k, i:i + kr, j:j + kc]
                vals = pd[k, i:i + kr, j:j + kc][w]
                if m.nv is None:
                    valid[k, i, j] = True
                else:
                    valid[k, i, j] = w.any() if op == "dilate" else w.all()
                if valid[k, i, j]:
                    out[k, i, j] = max(vals) if op == "dilate" else min(vals)
    return out, ~valid


def fam_morph(ctx):
    op = ctx.enum(["dilate", "erode"])
    m = model(ctx, dtypes=["uint8", "int8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64"],
              max_bands=2, max_side=10, unburned=ctx.chance(0.25))
    if m.nv is not None and ctx.chance(0.5):
        m.mask &= ctx.rng.random(m.shape) < 0.3  # leave room for erosion
        nvv = np.asarray(m.nv).astype(m.dtype)
        isnv = np.isnan(m.data) if same_value(m.nv, np.nan) else m.data == nvv
        m.data = np.where(isnv & ~m.mask, m.dtype.type(3 if m.nv != 3 else 4), m.data)
    r = build(ctx, m)
    ny, nx = m.shape[1:]
    for _ in range(30):
        size = (ctx.int(1, 6), ctx.int(1, 6))
        if size != (1, 1) and size[0] // 2 <= ny and size[1] // 2 <= nx:
            break
    else:
        size = (2, 2)
    arg = size[0] if size[0] == size[1] and ctx.chance(0.7) else ctx.choice([size, list(size)])
    ctx.note(op, size)
    ctx.describe(op=op, size=arg)
    o = Obs(getattr(general, op)(r, arg))
    want, wm = morph_ref(m, size, op)
    key = op
    check_wellformed(ctx, o, key + ":form")
    check_grid(ctx, o, m, key + ":grid")
    check_cells(ctx, o, want, wm, key, dtype=m.dtype)
    ctx.check(same_value(o.null, m.nv), key + ":null_value", got=o.null, want=m.nv)
    ctx.count(op + ("_even" if size[0] % 2 == 0 or size[1] % 2 == 0 else "_odd"))
    ctx.interesting(m.mask.any() or max(len(c) for c in r.data.chunks[1:]) > 1)


def fam_refuse(ctx):
    m = model(ctx, min_side=2, max_side=5, dtype="int32")
    r = build(ctx, m)
    bad = ctx.enum([0, 1, (1, 1), (0, 3), (3,), (1.5, 2), 2.5, "3"])
    ctx.note(str(bad))
    expect_raises(ctx, "morph:accepted_bad_size", lambda: general.dilate(r, bad), ValueError, TypeError)
    expect_raises(ctx, "morph:accepted_bad_size", lambda: general.erode(r, bad), ValueError, TypeError)
    expect_raises(ctx, "regions:accepted_bad_neighbors", lambda: general.regions(r, ctx.choice([3, 0, 6, 4.0, "4"])), ValueError, TypeError)


FAMILIES = {"regions": (fam_regions, 200, 3000), "morph": (fam_morph, 240, 3600), "refuse": (fam_refuse, 8, 8)}
REQUIRED = ["chunk_crossing", "restricted", "components", "dilate_even", "dilate_odd", "erode_even", "erode_odd", "cells_compared"]
