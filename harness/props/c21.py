"""C21: cost distance is the least accumulated cost."""
import numpy as np

from raster_tools import distance as D
from raster_tools.distance import _heap
from raster_tools.distance.cost_distance import cost_distance_analysis_numpy
from core import expect_raises
from gen import Obs, build, check_grid, check_wellformed, model, same_value

PROP = "C21"
RULE = ("Random cost surfaces (ties, zeros, barriers by null, negative or infinite cost, combs and mazes, up to 40x40 so that the heap grows and "
        "shrinks), sources as rasters and index lists, elevation with nulls, both connectivities, anisotropic cells, every dtype and chunk layout; "
        "distances are compared with a relaxation fixpoint computed in numpy and every traceback is followed move by move to its source, "
        "adding up the costs. Random histories of heap operations are compared with a dictionary. Non-trivial: unreachable cells or several sources.")

# code -> (row, col) step towards the source, from the documented table (6 7 8 / 5 X 1 / 4 3 2)
STEP = {1: (0, 1), 2: (1, 1), 3: (1, 0), 4: (1, -1), 5: (0, -1), 6: (-1, -1), 7: (-1, 0), 8: (-1, 1)}


def edge(cost, elev, ry, rx, i, j, di, dj):
    """Cost of moving between a cell and its neighbour."""
    d2 = (di * ry) ** 2 + (dj * rx) ** 2
    if elev is not None:
        d2 += (elev[i + di, j + dj] - elev[i, j]) ** 2
    return np.sqrt(d2) * 0.5 * (cost[i, j] + cost[i + di, j + dj])


def fixpoint(cost, ok, src, elev, ry, rx, conn):
    """Least accumulated cost by relaxation until nothing changes."""
    ny, nx = cost.shape
    c = np.where(ok, cost, 0.0)
    e = None if elev is None else np.where(ok, elev, 0.0)
    dist = np.where(src & ok, 0.0, np.inf)
    moves = [(di, dj) for di in (-1, 0, 1) for dj in (-1, 0, 1) if (di or dj) and (conn == 8 or not (di and dj))]
    w = {}
    for di, dj in moves:
        a = (slice(max(0, -di), ny - max(0, di)), slice(max(0, -dj), nx - max(0, dj)))
        b = (slice(max(0, di), ny - max(0, -di)), slice(max(0, dj), nx - max(0, -dj)))
        d2 = (di * ry) ** 2 + (dj * rx) ** 2
        if e is not None:
            d2 = d2 + (e[a] - e[b]) ** 2
        wt = np.sqrt(d2) * 0.5 * (c[a] + c[b])
        w[di, dj] = (a, b, np.where(ok[a] & ok[b], wt, np.inf))
    while True:
        old = dist.copy()
        for a, b, wt in w.values():
            dist[b] = np.minimum(dist[b], dist[a] + wt)
        if np.array_equal(old, dist):
            return dist


def single(*arrays):
    """Tolerance: sums of costs and height differences are taken in the inputs' precision."""
    return 1e-5 if any(a is not None and a.dtype.kind == "f" and a.dtype.itemsize < 8 for a in arrays) else 1e-9


def surface(ctx, m):
    """Give the model one of several cost patterns; returns the cost cells that block although they are valid."""
    ny, nx = m.shape[1:]
    rng, d = ctx.rng, m.data
    f = m.dtype.kind == "f"
    k = ctx.choice(["rand", "ties", "zeros", "maze", "comb", "small"])
    if k == "rand":
        v = rng.uniform(0.1, 50, (ny, nx)) if f else rng.integers(1, 100, (ny, nx))
    elif k == "ties":
        v = rng.integers(1, 3, (ny, nx))
    elif k == "zeros":
        v = np.where(rng.random((ny, nx)) < 0.6, 0, rng.integers(1, 5, (ny, nx)))
    elif k == "small" and f:
        v = rng.uniform(0, 1e-3, (ny, nx))
    else:
        v = rng.integers(1, 4, (ny, nx))
    v = v.astype(m.dtype)
    nvv = None if m.nv is None else m.nv
    if nvv is not None:
        v = np.where(v == m.dtype.type(nvv), m.dtype.type(2 if nvv != 2 else 3), v).astype(m.dtype)
    block = np.zeros((ny, nx), bool)
    wall = np.zeros((ny, nx), bool)
    if k == "comb":
        for j in range(1, nx, 2):
            wall[:, j] = True
            wall[-1 if (j // 2) % 2 else 0, j] = False
    elif k == "maze":
        wall = rng.random((ny, nx)) < 0.35
    if m.mask.any() or not wall.any():
        pass
    if wall.any():
        how = ctx.choice(["null", "neg", "inf"])
        if how == "null" and m.nv is not None:
            m.mask[0] |= wall
        elif f:
            v[wall] = m.dtype.type(-3.5 if how == "neg" else np.inf)
            block |= wall
        elif m.dtype.kind == "i":
            v[wall] = -2 if m.nv != -2 else -3
            block |= wall
    d[0] = np.where(m.mask[0], d[0] if m.unburned else (m.dtype.type(m.nv) if m.nv is not None else v), v)
    if m.nv is not None and m.unburned:
        d[0][m.mask[0]] = m.dtype.type(3)
    ctx.describe(surface=k)
    return block


# The kernel is compiled per pair of dtypes: not every pair is worth its time
QUICK = [("uint8", None), ("int32", None), ("float32", None), ("float64", None), ("float16", None), ("float64", "float64"), ("float32", "float16"),
         ("uint8", "uint16")]
PAIRS = {"float64": ["float64", "float16", "int16"], "float32": ["float32", "uint8"], "int64": ["float64", "int32"], "uint8": ["uint16"], "int16": ["float64"]}
DT = ["uint8", "int16", "uint16", "int32", "uint32", "int64", "float32", "float64", "float16"]


def GROUP(fam, i):
    return i if fam == "raster" else 3 * i


def make_costs(ctx, dtypes):
    big = ctx.chance(0.25)
    m = model(ctx, dtypes=dtypes, max_bands=1, min_side=2,
              max_side=40 if big else 11, unburned=ctx.chance(0.2), mask_style=None if ctx.chance(0.6) else "sparse")
    if m.dtype.kind == "f":
        # -1, 0 and 255 would be ambiguous on a cost surface
        if m.nv is not None:
            m.nv = ctx.choice([np.nan, -99.0])
    elif m.nv is not None and m.nv not in (0,):
        m.nv = ctx.choice([m.nv, 0])
    block = surface(ctx, m)
    ctx.count("big", big)
    return m, block


def make_elev(ctx, m, dt):
    # integer height differences are squared in integers: heights stay below 2**31
    e = model(ctx, dtype=dt, kind=ctx.choice(["small", "cat", "ramp"]), shape=m.shape, grid=(m.x, m.y), crs=m.crs, mask_style=ctx.choice(["sparse", "block", "none"]), unburned=ctx.chance(0.2))
    return e


def make_sources(ctx, m):
    ny, nx = m.shape[1:]
    n = ctx.int(1, min(6, ny * nx))
    idx = ctx.rng.choice(ny * nx, n, replace=False)
    ij = np.c_[idx // nx, idx % nx]
    if ctx.chance(0.4):
        ctx.count("sources:list")
        return ij, {tuple(p): k for k, p in enumerate(ij.tolist())}, -1
    dt = np.dtype(ctx.choice(["uint8" if ctx.index % 8 in (1, 5) else "int64"] if ctx.tier == "quick" else ["int64", "uint8", "int16", "int32", "uint16", "uint32"]))
    nv = int(ctx.choice([0, 1, 7, 100] + ([-1, -9] if dt.kind == "i" else [])))
    vals = [int(v) for v in ctx.rng.integers(0, 60, n)]
    vals = [v if v != nv else v + 61 for v in vals]
    s = m.copy()
    s.nv, s.unburned = nv, ctx.chance(0.2)
    s.data = np.full(m.shape, nv, dt)
    s.mask = np.ones(m.shape, bool)
    for (i, j), v in zip(ij, vals):
        s.data[0, i, j] = v
        s.mask[0, i, j] = False
    if s.unburned:
        s.data[s.mask] = ctx.int(0, 3)
        s.data[s.mask & (s.data == nv)] = nv
        ctx.count("sources:unburned")
    ctx.count("sources:raster")
    return build(ctx, s), {tuple(p): v for p, v in zip(ij.tolist(), vals)}, nv


def judge(ctx, dist, cd, tr, al, null, cost, ok, elev, ry, rx, srcs, conn, loose, rtol=1e-9):
    """All three products against each other and the fixpoint. loose: sources on impassable cells, either null or zero."""
    ny, nx = cost.shape
    reach = np.isfinite(dist)
    ctx.check(np.array_equal(null[~loose], ~reach[~loose]), "nulls", "unreachable and null cells must be null, and only they",
              got=null.astype(int), want=(~reach).astype(int))
    v = reach & ~loose
    ctx.check(np.allclose(cd[v], dist[v], rtol=rtol, atol=1e-12), "distance", "not the least accumulated cost", got=np.where(v, cd, -1), want=np.where(v, dist, -1))
    ctx.count("cells", v.sum())
    ctx.count("unreachable", (~reach).sum())
    codes = {0, 1, 3, 5, 7} if conn == 4 else set(range(9))
    ctx.check(set(np.unique(tr[v]).tolist()) <= codes, "traceback:code", got=np.unique(tr[v]), conn=conn)
    issrc = np.zeros((ny, nx), bool)
    for p in srcs:
        issrc[p] = True
    ctx.check(np.array_equal((tr == 0)[v], issrc[v]), "traceback:source", "code 0 must mark exactly the sources", got=(tr == 0).astype(int), want=issrc.astype(int))
    # every move is a real edge that accounts for the difference of the distances
    nxt = {}
    for i, j in np.argwhere(v & ~issrc):
        di, dj = STEP[int(tr[i, j])]
        a, b = i + di, j + dj
        ctx.check(0 <= a < ny and 0 <= b < nx, "traceback:outside", cell=(i, j), code=tr[i, j])
        ctx.check(v[a, b] and ok[a, b], "traceback:through_null", "the traceback enters an impassable cell", cell=(i, j), code=tr[i, j])
        w = edge(cost, elev, ry, rx, i, j, di, dj)
        ctx.check(np.isclose(cd[a, b] + w, cd[i, j], rtol=rtol, atol=1e-12), "traceback:cost", "the move does not add up to the distance", cell=(i, j),
                  got=cd[i, j], want=cd[a, b] + w)
        nxt[int(i), int(j)] = (int(a), int(b))
        ctx.count("moves")
    end = {}
    for p in nxt:
        seen = []
        q = p
        while q in nxt and q not in end:
            seen.append(q)
            q = nxt[q]
            ctx.check(len(seen) <= ny * nx, "traceback:cycle", "the traceback never reaches a source", cell=p)
        q = end.get(q, q)
        for s in seen:
            end[s] = q
    for p in srcs:
        if v[p]:
            end[p] = p
    for p, q in end.items():
        ctx.check(q in srcs, "traceback:end", cell=p, end=q)
        ctx.check(int(al[p]) == srcs[q], "allocation", "the allocation is not the source the traceback leads to", cell=p, got=al[p], want=srcs[q], source=q)


def fam_raster(ctx):
    if ctx.tier == "quick":
        dt, et = QUICK[ctx.index % 8]
        elevation, dtypes = et is not None, [dt]
    else:
        elevation = ctx.chance(0.4)
        dtypes = list(PAIRS) if elevation else DT
    m, block = make_costs(ctx, dtypes)
    elev = make_elev(ctx, m, et if ctx.tier == "quick" else ctx.choice(PAIRS[str(m.dtype)])) if elevation else None
    sources, srcs, snv = make_sources(ctx, m)
    conn = ctx.choice([4, 8])
    r = build(ctx, m)
    er = None if elev is None else build(ctx, elev)
    ctx.describe(sources=srcs, connectivity=conn)
    ctx.note(sorted(srcs.items()), conn, m.data, None if elev is None else elev.data)
    arg = sources if not isinstance(sources, np.ndarray) else ctx.choice([sources, sources.tolist(), [tuple(p) for p in sources.tolist()]])
    cd, tr, al = D.cost_distance_analysis(r, arg, elevation=er, connectivity=conn)
    oc, ot, oa = Obs(cd), Obs(tr), Obs(al)
    for o, k, dt in ((oc, "cost", "f8"), (ot, "traceback", "i1"), (oa, "allocation", "i8")):
        check_wellformed(ctx, o, key="form_" + k)
        check_grid(ctx, o, m, key="grid_" + k)
        ctx.check(o.data.dtype == np.dtype(dt), k + ":dtype", got=o.data.dtype)
        ctx.check(o.chunks == r.data.chunks, k + ":chunks", got=o.chunks, want=r.data.chunks)
        ctx.check(np.array_equal(o.mask, oc.mask), k + ":mask", "the three products disagree on the null cells")
    ctx.check(ot.null == -1 and oa.null == snv, "null_values", got=(ot.null, oa.null))
    if m.nv is not None:
        ctx.check(same_value(oc.null, m.nv), "cost_null_value", got=oc.null, want=m.nv)
    cost = m.data[0].astype("f8")
    ok = m.valid[0] & ~block
    e = None
    if elev is not None:
        e = elev.data[0].astype("f8")
        ok = ok & elev.valid[0]
        ctx.count("elevation")
    rx, ry = abs(m.x[1] - m.x[0]), abs(m.y[0] - m.y[1])
    smask = np.zeros(ok.shape, bool)
    for p in srcs:
        smask[p] = True
    dist = fixpoint(cost, ok, smask, e, ry, rx, conn)
    # A source on a valid cell that cannot be entered keeps its zero or is null
    loose = smask & ~ok & m.valid[0]
    judge(ctx, dist, oc.data[0], ot.data[0], oa.data[0], oc.mask[0], cost, ok, e, ry, rx, srcs, conn, loose,
          single(m.data, None if elev is None else elev.data))
    ctx.count("connectivity:%d" % conn)
    ctx.interesting(len(srcs) > 1 and (~np.isfinite(dist)).any())
    if ctx.chance(0.15):
        for f, o in ((D.cda_cost_distance, oc), (D.cda_traceback, ot), (D.cda_allocation, oa)):
            p = Obs(f(r, arg, er, conn))
            ctx.check(np.array_equal(p.data, o.data, equal_nan=o.data.dtype.kind == "f") and np.array_equal(p.mask, o.mask), f.__name__, "differs from the full analysis")
            ctx.count("single_products")


def fam_numpy(ctx):
    """The array function: scaling forms, elevation null value, traceback numbering."""
    ny, nx = ctx.int(1, 12), ctx.int(2, 12)
    rng = ctx.rng
    dt = ctx.choice(["f8", "f4", "u1", "f2"])
    cost = rng.integers(0, 6, (ny, nx)).astype(dt)
    ok = np.ones((ny, nx), bool)
    if dt[0] != "u":
        ok = rng.random((ny, nx)) > 0.2
        bad = ctx.choice([-1, -7] + ([np.inf, np.nan] if dt[0] == "f" else []))
        cost[~ok] = bad
    e, env = None, 0
    if ctx.chance(0.5):
        env = ctx.choice([0, -9999, 55])
        e = rng.integers(1, 30, (ny, nx)).astype("f2" if dt == "u1" else "f8" if dt != "f4" else "i4")
        hole = rng.random((ny, nx)) < 0.1
        if e.dtype.itemsize == 2 and env == -9999:
            env = 0  # not a float16 value
        e[hole] = env
        ok &= ~hole
    snv = ctx.choice([0, -1, 9])
    src = np.full((ny, nx), snv)
    srcs = {}
    for k in rng.choice(ny * nx, ctx.int(1, 4), replace=True):
        p = (int(k // nx), int(k % nx))
        if ok[p]:
            srcs[p] = int(10 + len(srcs))
            src[p] = srcs[p]
    conn = ctx.choice([4, 8])
    sc = ctx.choice([1.0, 30.0, (2.0, 5.0), [0.5, 0.25], np.array([3.0, 1.0])])
    ry, rx = (sc, sc) if np.isscalar(sc) else sc
    ctx.describe(cost=cost, elev=e, src=src, conn=conn, scaling=sc)
    ctx.note(cost, e, src, conn, str(sc))
    before = [None if a is None else a.copy() for a in (cost, src, e)]
    cd, tr, al = cost_distance_analysis_numpy(cost, src, snv, elevation=e, elevation_null_value=env, scaling=sc, connectivity=conn)
    for a, b, n in zip((cost, src, e), before, ("costs", "sources", "elevation")):
        ctx.check(a is None or np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), "numpy:changed_" + n)
    smask = src != snv
    c64, e64 = np.where(ok, cost, 0).astype("f8"), None if e is None else e.astype("f8")
    dist = fixpoint(c64, ok, smask, e64, ry, rx, conn)
    ctx.check(np.array_equal(tr == -2, ~np.isfinite(dist)), "numpy:not_reached", got=tr, want=dist)
    ctx.check((al[~np.isfinite(dist)] == snv).all(), "numpy:allocation_null", got=al)
    judge(ctx, dist, cd, tr.astype(int) + 1, al, ~np.isfinite(cd), c64, ok, e64, ry, rx, srcs, conn, np.zeros((ny, nx), bool),
          single(cost, e))
    ctx.interesting(len(srcs) > 1)
    ctx.count("numpy_cases")


def fam_heap(ctx):
    """A history of heap operations against a dictionary."""
    cap, n = ctx.choice([1, 2, 3, 8, 33, 128]), ctx.choice([1, 5, 40, 600])
    st = _heap.init_heap_data(cap, n)
    keys, values, xr, heap = st
    ref = {}
    rng = ctx.rng
    steps = ctx.int(20, 1500)
    phase = 0.7
    ctx.note(cap, n, steps, int(rng.integers(1 << 30)))
    ties = ctx.chance(0.4)
    peak = 0
    for s in range(steps):
        if s % 120 == 0:
            phase = ctx.choice([0.9, 0.6, 0.25, 0.05])
        if rng.random() < phase:
            v = int(rng.integers(-1 if ctx.chance(0.02) else 0, n + (2 if ctx.chance(0.02) else 1)))
            key = float(rng.integers(0, 5)) if ties else float(rng.uniform(0, 100))
            lower = rng.random() < 0.6
            keys, values, xr, heap, flag = (_heap.push_if_lower if lower else _heap.push)(keys, values, xr, heap, key, v)
            if not 0 <= v <= n:
                want = -1
            elif v in ref:
                want = 1 if lower and key < ref[v] else 0
                if not lower or key < ref[v]:
                    ref[v] = key
            else:
                want = 1
                ref[v] = key
            ctx.check(flag == want, "heap:flag", got=flag, want=want, op="push_if_lower" if lower else "push")
        elif ref:
            keys, values, xr, heap, k, v = _heap.pop(keys, values, xr, heap)
            ctx.check(v in ref and ref[v] == k, "heap:pop_pair", "popped a pair that is not on the heap", got=(k, v), want=ref.get(v))
            ctx.check(k == min(ref.values()), "heap:pop_min", "did not pop the smallest key", got=k, want=min(ref.values()))
            del ref[v]
        ctx.check(heap[0]["count"] == len(ref), "heap:count", got=heap[0]["count"], want=len(ref))
        peak = max(peak, len(ref))
        ctx.count("heap_ops")
    while ref:
        keys, values, xr, heap, k, v = _heap.pop(keys, values, xr, heap)
        ctx.check(v in ref and ref[v] == k == min(ref.values()), "heap:drain", got=(k, v), want=min(ref.values()))
        del ref[v]
    ctx.count("heap_grew", peak > max(2, cap))
    ctx.interesting(peak > cap)


def fam_refuse(ctx):
    k = ctx.enum(["connectivity", "dup", "bounds", "negative", "float_sources", "unmasked_sources", "bands", "shape", "elev_shape"])
    ctx.note(k)
    m = model(ctx, dtype="float32", shape=(1, 4, 5), nulls=False)
    r = build(ctx, m)
    s = model(ctx, dtype="int32", shape=(1, 4, 5), nulls=True, nv=0, grid=(m.x, m.y), crs=m.crs)
    F = D.cost_distance_analysis
    if k == "connectivity":
        expect_raises(ctx, k, lambda: F(r, [(0, 0)], connectivity=6), ValueError)
    elif k == "dup":
        expect_raises(ctx, k, lambda: F(r, [(0, 0), (0, 0)]), ValueError)
    elif k == "bounds":
        expect_raises(ctx, k, lambda: F(r, [(0, 5)]), ValueError)
    elif k == "negative":
        expect_raises(ctx, k, lambda: F(r, [(-1, 0)]), ValueError)
    elif k == "float_sources":
        expect_raises(ctx, k, lambda: F(r, build(ctx, s).astype("float64")), TypeError)
    elif k == "unmasked_sources":
        s.nv, s.mask[:] = None, False
        expect_raises(ctx, k, lambda: F(r, build(ctx, s)), ValueError)
    elif k == "bands":
        expect_raises(ctx, k, lambda: F(build(ctx, model(ctx, dtype="float32", shape=(2, 4, 5))), [(0, 0)]), ValueError)
    elif k == "shape":
        expect_raises(ctx, k, lambda: F(build(ctx, model(ctx, dtype="float32", shape=(1, 4, 6))), build(ctx, s)), ValueError)
    else:
        expect_raises(ctx, k, lambda: F(r, [(0, 0)], elevation=build(ctx, model(ctx, dtype="float32", shape=(1, 5, 5)))), ValueError)


FAMILIES = {"raster": (fam_raster, 200, 6000), "numpy": (fam_numpy, 120, 4000), "heap": (fam_heap, 80, 1500), "refuse": (fam_refuse, 9, 9)}
REQUIRED = ["sources:list", "sources:raster", "elevation", "connectivity:4", "connectivity:8", "unreachable", "moves", "single_products", "heap_ops",
            "heap_grew", "big", "numpy_cases"]
