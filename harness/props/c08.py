"""C08: conditional and remapping operations follow their cell rule."""
import os

import numpy as np

import raster_tools as rts
from raster_tools import general
from raster_tools import general
from core import Skip
import gen
from gen import (FLOAT_DTYPES, INT_DTYPES, Obs, build, check_cells, check_grid, check_wellformed, model, rand_data,
                 same_value)

PROP = "C08"
RULE = ("one case = one where/remap_range/reclassify call with a generated condition or mapping whose range ends and keys are "
        "mostly values present in the raster; every cell is compared with the stated rule; non-trivial when at least one valid "
        "cell was changed by the rule")
REQUIRED = ["cells_compared", "cells_remapped", "cells_on_range_ends", "null_targets", "null_conditions", "reused_mappings", "file_mappings"]

INC = {"left": lambda v, a, b: (v >= a) & (v < b), "right": lambda v, a, b: (v > a) & (v <= b),
       "both": lambda v, a, b: (v >= a) & (v <= b), "none": lambda v, a, b: (v > a) & (v < b)}


ALL = INT_DTYPES + FLOAT_DTYPES * 2
# numba compiles each dtype combination anew: the quick tier uses fewer
FEW = ["uint8", "int16", "int64", "float32", "float64"]


def rast(ctx, **kw):
    m = model(ctx, dtypes=ALL if ctx.tier == "thorough" or ctx.family == "where" or ctx.chance(0.1) else FEW, kind=ctx.choice(["small", "cat", "ramp"]), unburned=ctx.chance(0.25), max_side=10, **kw)
    return m, build(ctx, m)


def judge(ctx, out, m, want, mask, key, ambiguous=None, masked=None):
    o = Obs(out)
    check_wellformed(ctx, o, key + ":form")
    check_grid(ctx, o, m, key + ":grid")
    if ambiguous is not None and ambiguous.any():
        # a value equal to the null value of the result reads as null by convention
        o.mask = np.where(ambiguous, mask, o.mask)
        want = np.where(ambiguous, o.data, want)
    if mask.any() or o.mask.any():
        ctx.check(o.null is not None, key + ":no_null_value", "null cells without a null value")
    check_cells(ctx, o, want, mask, key)
    return o


def null_like(a, nv):
    if nv is None:
        return np.zeros(np.shape(a), bool)
    if same_value(nv, np.nan):
        return np.isnan(a.astype("f8"))
    return a == nv


def where(ctx):
    dt = ctx.choice(["bool", "bool", "uint8", "int8", "int16", "int64"])
    cm = model(ctx, dtype=dt, kind="cat", max_side=10, nulls=ctx.chance(0.5))
    if dt == "bool" and cm.nv is not None:
        # a boolean raster's null cells hold True by convention: nulls must still win
        cm = model(ctx, dtype="uint8", shape=cm.shape, grid=(cm.x, cm.y), crs=cm.crs, kind="cat", nulls=True, nv=255)
        cond_r = None
        base = build(ctx, cm)
        cond_r = base > 0
        cond_valid = cm.data > 0
    else:
        cond_r = build(ctx, cm)
        cond_valid = cm.data > 0
    ctx.count("null_conditions", cm.mask.any())
    args, vals, masks, kinds = [], [], [], []
    for k in range(2):
        kind = ctx.choice(["raster", "raster", "int", "float", "none"])
        if k == 1 and kind == "none" and kinds[0] == "none":
            kind = "raster"
        kinds.append(kind)
        if kind == "raster":
            m, r = rast(ctx, shape=cm.shape, grid=(cm.x, cm.y), crs=cm.crs)
            args.append(r)
            vals.append(m.data)
            masks.append(m.mask)
        elif kind == "none":
            args.append(None)
            vals.append(np.zeros(cm.shape, "u1"))
            masks.append(np.ones(cm.shape, bool))
        else:
            v = ctx.int(0, 60) if kind == "int" else float(ctx.choice([0.5, -3.25, 12.0]))
            args.append(v)
            vals.append(np.full(cm.shape, v))
            masks.append(np.zeros(cm.shape, bool))
    ctx.describe(cond=dt, kinds=kinds)
    ctx.note(kinds)
    if kinds[0] == "raster" and ctx.chance(0.5):
        out = args[0].where(cond_r, args[1])
    else:
        out = general.where(cond_r, args[0], args[1])
    want = np.where(cond_valid, vals[0].astype("f8"), vals[1].astype("f8"))
    mask = cm.mask | np.where(cond_valid, masks[0], masks[1])
    nv = out.null_value
    amb = null_like(want, nv) & ~mask
    judge(ctx, out, cm, want, mask, "where", amb)
    ctx.interesting((~mask).any() and cond_valid.any() and not cond_valid.all())
    ctx.count("cells_remapped", (~mask).sum())


def pick_values(ctx, m, n):
    v = np.unique(m.data[m.valid])
    if v.size == 0:
        return [ctx.int(0, 20) for _ in range(n)]
    return [v[ctx.int(0, v.size - 1)].item() for _ in range(n)]


def targets(ctx, m, n, allow_none=True):
    out = []
    for _ in range(n):
        k = ctx.choice(["int", "int", "float", "none", "neg", "big", "same"])
        if k == "none" and allow_none:
            out.append(None)
        elif k == "float":
            out.append(float(ctx.choice([0.5, 10.25, -2.0])))
        elif k == "neg":
            out.append(-ctx.int(1, 100))
        elif k == "big":
            out.append(ctx.choice([300, 1000, 70000]))
        elif k == "same":
            out.append(pick_values(ctx, m, 1)[0])
        else:
            out.append(ctx.int(0, 100))
    return out


def remap(ctx):
    m, r = rast(ctx)
    n = ctx.int(1, 5)
    maps = []
    for t in targets(ctx, m, n):
        a, b = sorted(pick_values(ctx, m, 2))
        if ctx.chance(0.3):
            b = a + ctx.choice([1, 5, 0.5])
        if ctx.chance(0.2):
            a = a - ctx.choice([1, 2.5])
        if a >= b:
            b = a + 1
        maps.append((a, b, t))
    inc = ctx.enum(list(INC))
    mapping = [tuple(x) for x in maps]
    if n == 1 and ctx.chance(0.5):
        mapping = mapping[0]
    elif ctx.chance(0.3):
        mapping = [list(x) for x in maps]
    ctx.describe(mapping=mapping, inclusivity=inc)
    ctx.note(str(mapping), inc)
    kw = {} if inc == "left" and ctx.chance(0.5) else {"inclusivity": inc}
    out = r.remap_range(mapping, **kw) if ctx.chance(0.5) else rts.remap_range(r, mapping, **kw)
    v = m.data.astype("f8")
    want, mask, done = v.copy(), m.mask.copy(), m.mask.copy()
    for a, b, t in maps:
        hit = INC[inc](v, float(a), float(b)) & ~done
        ctx.count("cells_on_range_ends", (((v == a) | (v == b)) & ~done).sum())
        done |= hit
        if t is None:
            mask |= hit
            ctx.count("null_targets", hit.any())
        else:
            want[hit] = t
    nv = out.null_value
    amb = null_like(want, nv) & ~mask
    o = judge(ctx, out, m, want, mask, "remap", amb)
    if m.nv is None and all(t is not None for *_, t in maps):
        ctx.check(o.null is None, "remap:null_value", "a null value appeared", got=o.null)
    changed = (done & ~m.mask).sum()
    ctx.count("cells_remapped", changed)
    ctx.interesting(changed)


def reclass(ctx):
    m, r = rast(ctx)
    n = ctx.int(1, 6)
    keys = []
    for k in pick_values(ctx, m, n) + ([ctx.int(0, 120)] if ctx.chance(0.5) else []):
        if m.dtype.kind == "f" and float(k).is_integer() and ctx.chance(0.5):
            k = int(k)
        if k not in keys:
            keys.append(k)
    mapping = dict(zip(keys, targets(ctx, m, len(keys))))
    unm = ctx.chance(0.4)
    ctx.describe(mapping=mapping, unmapped_to_null=unm)
    ctx.note(str(mapping), unm)
    arg = dict(mapping)
    use_file = ctx.chance(0.25) and m.dtype != np.dtype("float32")
    if use_file:
        # the ASCII form of the same mapping
        path = os.path.join(ctx.tmp, "remap.txt")
        with open(path, "w") as f:
            for k, t in mapping.items():
                f.write(f"{ctx.choice(['', '  '])}{k!r}{ctx.choice([':', ' : ', ': '])}{'NoData' if t is None else repr(t)}\n")
                if ctx.chance(0.2):
                    f.write("\n")
        arg = path
        ctx.count("file_mappings")

    def judge_one(rr, mm, key):
        out = rr.reclassify(arg, unmapped_to_null=unm) if ctx.chance(0.5) else rts.reclassify(rr, arg, unmapped_to_null=unm)
        v = mm.data.astype("f8")
        want, mask, hit_any = v.copy(), mm.mask.copy(), np.zeros(mm.shape, bool)
        for k, t in mapping.items():
            hit = (v == float(k)) & ~mm.mask
            hit_any |= hit
            if t is None:
                mask |= hit
                ctx.count("null_targets", hit.any())
            else:
                want[hit] = t
        if unm:
            mask |= ~hit_any
        amb = null_like(want, out.null_value) & ~mask
        o = judge(ctx, out, mm, want, mask, key, amb)
        if mm.nv is None and not unm and all(t is not None for t in mapping.values()):
            ctx.check(o.null is None, key + ":null_value", "a null value appeared", got=o.null)
        ctx.count("cells_remapped", hit_any.sum())
        ctx.interesting(hit_any.any())

    judge_one(r, m, "reclassify")
    if ctx.chance(0.5):
        # the same mapping object used for a second raster
        m2 = model(ctx, dtypes=[m.dtype.name, "int16", "float64"], kind="cat", max_side=8)
        judge_one(build(ctx, m2), m2, "reclassify:second_use")
        ctx.count("reused_mappings")
    if not use_file:
        ctx.check(arg == mapping and [type(a) for a in arg.values()] == [type(a) for a in mapping.values()],
                  "reclassify:mapping_changed", "the caller's mapping was modified", before=mapping, after=arg)


def big(ctx):
    """Integers that a float64 cannot tell apart stay apart."""
    fn = ctx.enum(["reclass", "where", "remap"])
    # numba compares uint64 with signed range ends as floats; small targets keep int64 from being promoted
    dt = ctx.choice(["int64", "uint64"] if fn != "remap" else ["int64"])
    base = ctx.choice([2**53, 2**54, 2**60, 2**62] + ([2**63 + 2**40] if dt == "uint64" and fn == "where" else []) + ([-2**55] if dt == "int64" else []))
    vals = [base + i for i in range(5)]
    m = gen.model(ctx, dtype=dt, kind="small", max_side=7, nulls=False)
    idx = ctx.rng.integers(0, 5, m.shape)
    m.data = np.array(vals, dt)[idx]
    if ctx.chance(0.5):
        m.nv = 3
        m.mask = gen.rand_mask(ctx, m.shape)
        m.data = np.where(m.mask, np.asarray(3, dt), m.data)
    r = build(ctx, m)
    ctx.note(fn, dt, base)
    ctx.describe(fn=fn, base=base)
    ctx.interesting()
    want, mask = m.data.copy(), m.mask.copy()
    if fn == "reclass":
        keys = sorted({ctx.int(0, 4) for _ in range(3)})
        mapping = {vals[k]: vals[(k + 2) % 5] if dt == "uint64" and ctx.chance(0.6) else 17 for k in keys}
        ctx.describe(mapping=mapping)
        for k, t in mapping.items():
            want[m.data == np.asarray(k, dt)] = t
        out = r.reclassify(mapping)
    elif fn == "where":
        other = np.array(vals, dt)[ctx.rng.integers(0, 5, m.shape)]
        cond = ctx.rng.random(m.shape) < 0.5
        mo = gen.M(other, np.zeros(m.shape, bool), None, m.x, m.y, m.crs)
        mc = gen.M(cond, np.zeros(m.shape, bool), None, m.x, m.y, m.crs)
        out = general.where(build(ctx, mc), r, build(ctx, mo))
        want = np.where(cond, m.data, other)
        mask = m.mask & cond
    else:
        a, b = ctx.int(0, 2), ctx.int(3, 4)
        inc = ctx.choice(list(INC))
        hit = INC[inc](idx, a, b) & ~m.mask
        want[hit] = 17
        out = r.remap_range((vals[a], vals[b], 17), inclusivity=inc)
    o = gen.Obs(out)
    ctx.check(o.data.dtype == np.dtype(dt), "big:dtype", got=o.data.dtype)
    ctx.check(np.array_equal(o.mask, mask), "big:mask", got=o.mask, want=mask)
    ctx.check(np.array_equal(o.data[~mask], want[~mask]), "big:" + fn, "integers beyond 2**53 are confused", got=o.data, want=want)
    ctx.count("big_integers", want.size)


FAMILIES = {"big": (big, 60, 900), "where": (where, 200, 4000), "remap": (remap, 200, 4000), "reclass": (reclass, 240, 4000)}
