"""C09: bands, quadrants and chunk pieces partition and reassemble without loss."""
import numpy as np

import raster_tools as rts
from gen import (M, Obs, arrays_same, build, check_cells, check_grid, check_wellformed, crs_same, model, rand_chunks,
                 same_value)
from core import expect_raises

PROP = "C09"
RULE = ("Random rasters (1-4 bands, all dtypes, per-band null patterns, random chunk layouts incl. 1-wide chunks); band "
        "selections with repeats, stacks of mixed dtypes/nulls, quadrant and chunk pieces compared cell by cell and coordinate "
        "by coordinate with the model, and reassembled. Non-trivial: more than one band or piece.")
DT = ["uint8", "int16", "int32", "uint32", "int64", "float32", "float64", "bool", "int8", "uint16", "uint64"]


def piece(m, ysl, xsl, bsl=slice(None)):
    return M(m.data[bsl, ysl, xsl], m.mask[bsl, ysl, xsl], m.nv, m.x[xsl], m.y[ysl], m.crs)


def compare(ctx, r, want, key):
    o = Obs(r)
    check_wellformed(ctx, o, key=key + ":form", burned=False)
    check_cells(ctx, o, want.data, want.mask, key=key, dtype=want.data.dtype)
    check_grid(ctx, o, want, key=key + ":grid")
    ctx.check(same_value(o.null, want.nv), key + ":null_value", got=o.null, want=want.nv)
    return o


def fam_select(ctx):
    m = model(ctx, dtypes=DT, max_bands=4, min_side=1, unburned=ctx.chance(0.2))
    r = build(ctx, m)
    nb = m.shape[0]
    mode = ctx.enum(["list", "int", "npint", "tuple", "array", "split"])
    ctx.describe(mode=mode)
    ctx.note(mode)
    ctx.interesting(nb > 1)
    if mode == "split":
        parts = ctx.choice([rts.split_bands, lambda q: q.split_bands()])(r)
        ctx.check(len(parts) == nb, "split:count", got=len(parts), want=nb)
        for i, p in enumerate(parts):
            compare(ctx, p, piece(m, slice(None), slice(None), slice(i, i + 1)), "split")
        ctx.count("splits")
        return
    if mode in ("int", "npint"):
        b = ctx.int(1, nb)
        sel = [b]
        arg = b if mode == "int" else np.int64(b)
    else:
        sel = [ctx.int(1, nb) for _ in range(ctx.int(1, 5))]
        arg = {"list": sel, "tuple": tuple(sel), "array": np.array(sel)}[mode]
    ctx.describe(sel=sel)
    ctx.note(sel)
    g = r.get_bands(arg)
    compare(ctx, g, piece(m, slice(None), slice(None), [b - 1 for b in sel]), "select")
    ctx.count("selections")
    # band order must survive a second selection
    if len(sel) > 1:
        perm = ctx.rng.permutation(len(sel))
        g2 = g.get_bands([int(p) + 1 for p in perm])
        compare(ctx, g2, piece(m, slice(None), slice(None), [sel[p] - 1 for p in perm]), "select2")
    bad = ctx.choice([0, nb + 1, -1])
    expect_raises(ctx, "select:out_of_range", lambda: r.get_bands(bad if ctx.chance(0.5) else [1, bad]), IndexError)


def fam_stack(ctx):
    k = ctx.int(1, 4)
    shape = (ctx.int(1, 8), ctx.int(1, 8)) if False else (ctx.int(2, 8), ctx.int(2, 8))
    same = ctx.chance(0.4)
    fn = ctx.enum(["stack", "concat"])
    dts = [ctx.choice(DT[:7])] * k if same else [ctx.choice(["uint8", "int16", "int32", "float32", "float64", "uint16"]) for _ in range(k)]
    first = None
    ms, rs = [], []
    nv0 = ctx.choice([0, 1, 7])
    for i in range(k):
        kw = {}
        if not same:
            kw["nv"] = nv0 if ctx.chance(0.5) else ctx.choice([0, 3, 7, 100])
        m = model(ctx, dtype=dts[i], shape=(ctx.int(1, 3), *shape), kind="cat" if not same else "small",
                  grid=None if first is None else (first.x, first.y), crs="rand" if first is None else first.crs, **kw)
        if first is None:
            first = m
        ms.append(m)
    want_crs = first
    if fn == "concat" and first.crs is not None and ctx.chance(0.4):
        # rasters without a CRS join those that have one
        for m in ms:
            if ctx.chance(0.5):
                m.crs = None
        crss = [m.crs for m in ms if m.crs is not None]
        want_crs = M(None, None, None, first.x, first.y, crss[0] if crss else None)
        ctx.count("some_without_crs", 0 < len(crss) < k)
    rs = [build(ctx, m) for m in ms]
    ctx.interesting(k > 1)
    ctx.note(fn, k, dts)
    ctx.describe(fn=fn)
    want_dt = np.result_type(*[m.dtype for m in ms])
    data = np.concatenate([m.data.astype(want_dt) for m in ms])
    mask = np.concatenate([m.mask for m in ms])
    before = [Obs(r) for r in rs]
    kw = {}
    if fn == "stack" and ctx.chance(0.3):
        kw["null_value"] = ctx.choice([120, 77, "default"])
    if fn == "stack":
        out = rts.stack_bands(rs, **kw)
    else:
        out = rts.band_concat(rs)
    o = Obs(out)
    if k > 1:
        check_wellformed(ctx, o, key=fn + ":form", burned=True)
    check_cells(ctx, o, data, mask, key=fn, dtype=want_dt)
    check_grid(ctx, o, want_crs, key=fn + ":grid")
    if kw.get("null_value") not in (None, "default") and any(m.nv is not None for m in ms):
        ctx.check(same_value(o.null, kw["null_value"]), "stack:null", got=o.null, want=kw["null_value"])
    ctx.count("stacks")
    # split again: every input comes back
    parts = out.split_bands()
    i = 0
    for m in ms:
        for b in range(m.shape[0]):
            po = Obs(parts[i])
            ctx.check(np.array_equal(po.mask[0], m.mask[b]), fn + ":unsplit_mask", band=i)
            v = ~m.mask[b]
            ctx.check(arrays_same(po.data[0][v], m.data[b].astype(want_dt)[v]), fn + ":unsplit", band=i)
            i += 1
    for m, r, b in zip(ms, rs, before):
        a = Obs(r)
        ctx.check(arrays_same(a.data, b.data) and np.array_equal(a.mask, b.mask) and same_value(a.null, b.null), fn + ":input_changed")


def fam_quadrants(ctx):
    m = model(ctx, dtypes=DT, max_bands=3, min_side=2, max_side=14, unburned=ctx.chance(0.2))
    r = build(ctx, m)
    ny, nx = m.shape[1:]
    q = r.to_quadrants()
    ctx.check(q._fields == ("nw", "ne", "sw", "se"), "quad:order", got=q._fields)
    ctx.interesting()
    ys = [slice(0, ny // 2), slice(ny // 2, ny)]
    xs = [slice(0, nx // 2), slice(nx // 2, nx)]
    i = 0
    for a in ys:
        for b in xs:
            compare(ctx, q[i], piece(m, a, b), "quad")
            ctx.count("quadrants")
            i += 1


def fam_pieces(ctx):
    # single rows/columns of cells have a known cell size only through the affine
    nb = ctx.int(1, 3)
    ny, nx = ctx.int(2, 12), ctx.int(2, 12)
    m = model(ctx, dtypes=DT, shape=(nb, ny, nx), square=ctx.chance(0.5))
    ch = (rand_chunks(ctx, ny), rand_chunks(ctx, nx))
    r = build(ctx, m, chunks=ch)
    rx, ry = m.x[1] - m.x[0], m.y[0] - m.y[1]
    pieces = r.get_chunk_rasters()
    ctx.check(pieces.shape == (nb, len(ch[0]), len(ch[1])), "pieces:shape", got=pieces.shape)
    ctx.interesting(pieces.size > 1)
    ye, xe = np.r_[0, np.cumsum(ch[0])], np.r_[0, np.cumsum(ch[1])]
    boxes = r.get_chunk_bounding_boxes()
    boxes_b = r.get_chunk_bounding_boxes(include_band=True)
    ctx.check(len(boxes) == len(ch[0]) * len(ch[1]), "boxes:count", got=len(boxes))
    ctx.check(len(boxes_b) == pieces.size, "boxes:count_band", got=len(boxes_b))
    ctx.check(crs_same(boxes.crs, m.crs), "boxes:crs", got=boxes.crs)
    bm = {(int(t.chunk_row), int(t.chunk_col)): t.geometry.bounds for t in boxes.itertuples()}
    bbm = {(int(t.chunk_band), int(t.chunk_row), int(t.chunk_col)): t.geometry.bounds for t in boxes_b.itertuples()}
    for b in range(nb):
        for i in range(len(ch[0])):
            for j in range(len(ch[1])):
                a, c = slice(ye[i], ye[i + 1]), slice(xe[j], xe[j + 1])
                want = piece(m, a, c, slice(b, b + 1))
                compare(ctx, pieces[b, i, j], want, "pieces")
                fp = (m.x[a_(c)[0]] - rx / 2, m.y[a_(a)[1]] - ry / 2, m.x[a_(c)[1]] + rx / 2, m.y[a_(a)[0]] + ry / 2)
                tol = 1e-6 * max(1, np.abs(fp).max() * 1e-3)
                ctx.check(np.allclose(pieces[b, i, j].bounds, fp, rtol=0, atol=tol), "pieces:bounds",
                          got=pieces[b, i, j].bounds, want=fp, chunks=ch, at=(b, i, j))
                ctx.check((i, j) in bm and np.allclose(bm[i, j], fp, rtol=0, atol=tol), "boxes:bounds", got=bm.get((i, j)), want=fp,
                          chunks=ch, at=(i, j))
                ctx.check((b, i, j) in bbm and np.allclose(bbm[b, i, j], fp, rtol=0, atol=tol), "boxes:bounds_band",
                          got=bbm.get((b, i, j)), want=fp)
                ctx.count("pieces")
                if ye[i + 1] - ye[i] == 1 or xe[j + 1] - xe[j] == 1:
                    ctx.count("thin_pieces")


def a_(s):
    return s.start, s.stop - 1


FAMILIES = {"select": (fam_select, 120, 1500), "stack": (fam_stack, 80, 900), "quadrants": (fam_quadrants, 40, 400),
            "pieces": (fam_pieces, 60, 600)}
REQUIRED = ["selections", "splits", "stacks", "quadrants", "pieces", "thin_pieces"]
