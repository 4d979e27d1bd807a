"""C07: null-management operations move nulls and keep valid data."""
import numpy as np

import raster_tools as rts
from core import Skip
from gen import (FLOAT_DTYPES, INT_DTYPES, Obs, arrays_same, build, check_cells, check_grid, check_wellformed, model,
                 rand_mask, rand_null, same_value)

PROP = "C07"
RULE = ("one case = one null-management call (or a history of several) on a generated raster, its result compared with a "
        "model that tracks data and nulls separately; non-trivial when the raster has valid cells and nulls are present, "
        "added or changed")
REQUIRED = ["cells_compared", "value_already_present", "promotions", "histories", "junk_under_mask", "broadcast_masks"]

DTS = INT_DTYPES + FLOAT_DTYPES * 2 + ["float16", "bool"]


def isval(data, v):
    if same_value(v, np.nan):
        return np.isnan(data) if data.dtype.kind == "f" else np.zeros(data.shape, bool)
    return data == v


def pick_null(ctx, m):
    d = m.dtype
    c = ["present", "fresh", "nan", "big", "neg", "float", "none"]
    k = ctx.choice(c)
    if k == "present" and m.valid.any():
        v = m.data[m.valid][ctx.int(0, int(m.valid.sum()) - 1)]
        ctx.count("value_already_present")
        return v.item()
    if k == "nan":
        return np.nan
    if k == "big":
        return ctx.choice([300, 70000, 2**31 + 5, 99999])
    if k == "neg":
        return ctx.choice([-1, -200, -40000])
    if k == "float":
        return ctx.choice([0.5, -9999.0, -9999.5, 255.0])
    if k == "none":
        return None
    return ctx.choice([0, 1, 99, 100])


def representable(v, dtype):
    dtype = np.dtype(dtype)
    if dtype.kind == "b":
        return v in (True, False)
    if same_value(v, np.nan):
        return dtype.kind == "f"
    with np.errstate(all="ignore"):
        if dtype.kind in "ui":
            ii = np.iinfo(dtype)
            return float(v).is_integer() and ii.min <= int(v) <= ii.max
        return float(dtype.type(v)) == float(v)


def set_null_value_model(m, v):
    """(data, mask) after setting the null value v."""
    if v is None:
        # clearing keeps the data, with the null value in the null cells
        data = m.data if m.nv is None else np.where(m.mask, True, m.data) if m.dtype.kind == "b" else np.where(m.mask, np.asarray(m.nv).astype(m.dtype), m.data)
        return data, np.zeros(m.shape, bool)
    mask = m.mask | isval(m.data, v)
    return m.data, mask


def judge(ctx, out, m, mask, nv, key, want=None, dtype=None, rtol=0.0, burned=True):
    o = Obs(out)
    ctx.count("operations")
    check_wellformed(ctx, o, key + ":form", burned=burned)
    check_grid(ctx, o, m, key + ":grid")
    check_cells(ctx, o, m.data if want is None else want, mask, key, rtol=rtol, dtype=dtype)
    if nv != "skip":
        ctx.check(same_value(o.null, nv), key + ":null_value", "wrong null value", got=o.null, want=nv)
    ctx.interesting((~mask).any() and (mask.any() or m.mask.any()))
    return o


def op_set_null_value(ctx, r, m, force=None):
    v = pick_null(ctx, m) if force is None else force
    if m.dtype.kind == "b" and v is not None and (v is False or v == 0):
        raise Skip("False as a null value of a boolean raster cannot be stored")
    if m.dtype.itemsize == 8 and m.dtype.kind in "ui" and v is not None and not representable(v, m.dtype):
        if np.abs(m.data.astype("f8")).max() > 2**52:
            raise Skip("no dtype holds both")
    ctx.describe(null=v)
    ctx.note("set_null_value", v)
    out = r.set_null_value(v)
    data, mask = set_null_value_model(m, v)
    o = judge(ctx, out, m, mask, v, "set_null_value", want=data)
    if v is None:
        ctx.check(o.data.dtype == m.dtype, "set_null_value:dtype", got=o.data.dtype)
        if m.nv is not None and m.mask.any() and m.dtype.kind != "b":
            # clearing the null value keeps the data, null cells included
            ctx.check(isval(o.data[m.mask], np.asarray(m.nv).astype(m.dtype)).all(), "set_null_value:clear_data", got=o.data[m.mask])
        new = m.copy()
        new.data, new.mask, new.nv, new.unburned = o.data, mask, None, False
    else:
        ctx.count("promotions", o.data.dtype != m.dtype)
        ctx.check(representable(v, o.data.dtype), "set_null_value:unrepresentable", dtype=o.data.dtype, null=v)
        if m.dtype.kind in "ui" and representable(v, m.dtype) and type(v) is int:
            ctx.check(o.data.dtype == m.dtype, "set_null_value:needless_promotion", got=o.data.dtype, was=m.dtype)
        new = m.copy()
        new.data, new.mask, new.nv, new.unburned = o.data, mask, v, False
    return out, new


def op_replace_null(ctx, r, m):
    v = ctx.choice([0, 1, 5, 17, 0.5])
    if m.dtype.kind == "b":
        raise Skip("boolean")
    out = r.replace_null(v)
    ctx.note("replace_null", v)
    ctx.describe(replace=v)
    o = judge(ctx, out, m, m.mask | isval(m.data, v), v, "replace_null")
    if m.mask.any():
        ctx.check((o.data[m.mask] == v).all(), "replace_null:value", "null cells do not hold the replacement", got=o.data[m.mask], want=v)
    new = m.copy()
    new.data, new.mask, new.nv, new.unburned = o.data, o.mask, v, False
    return out, new


def op_set_null(ctx, r, m):
    nb = 1 if ctx.chance(0.4) else m.shape[0]
    ctx.count("broadcast_masks", nb == 1 and m.shape[0] > 1)
    dt = ctx.choice(["bool", "uint8", "int8"])
    nulls = ctx.chance(0.4)
    mm = model(ctx, dtype=dt, shape=(nb, *m.shape[1:]), grid=(m.x, m.y), crs=m.crs, kind="cat", nulls=nulls, nv=None if dt == "bool" else 7)
    if dt != "bool":
        mm.data = np.where(mm.mask, mm.data, np.clip(mm.data, -1 if dt == "int8" else 0, 2)).astype(dt)
        mm.data[mm.mask] = 7 if nulls else mm.data[mm.mask]
    mr = build(ctx, mm)
    add = mm.data.astype(bool) & ~mm.mask
    ctx.note("set_null", mm.data)
    out = r.set_null(mr)
    mask = m.mask | np.broadcast_to(add, m.shape)
    o = judge(ctx, out, m, mask, m.nv if m.nv is not None else "skip", "set_null", dtype=m.dtype)
    new = m.copy()
    new.mask, new.nv, new.data, new.unburned = mask, o.null, o.data, False
    return out, new


def op_burn(ctx, r, m):
    out = r.burn_mask()
    judge(ctx, out, m, m.mask, m.nv, "burn_mask", dtype=m.dtype)
    return out, Obs_model(m, out)


def Obs_model(m, out):
    o = Obs(out)
    new = m.copy()
    new.data, new.mask, new.nv = o.data, o.mask, o.null
    new.unburned = m.unburned and not same_burn(o)
    return new


def same_burn(o):
    return o.data.dtype.kind == "b" or o.null is None or bool(isval(o.data[o.mask], np.asarray(o.null).astype(o.data.dtype)).all())


def op_astype(ctx, r, m):
    dt = np.dtype(ctx.choice(INT_DTYPES + FLOAT_DTYPES + ["float16", "bool"]))
    v = m.data[m.valid]
    if dt.kind in "ui" and v.size:
        ii = np.iinfo(dt)
        f = v.astype("f8")
        if not np.isfinite(f).all() or f.min() < ii.min + 1 or f.max() > min(ii.max, 2**62):
            raise Skip("values out of the target's range")
    if dt.itemsize == 2 and dt.kind == "f" and v.size and np.abs(v.astype("f8")).max() > 60000:
        raise Skip("values out of the target's range")
    kw = {}
    if m.nv is not None and ctx.chance(0.3) and dt.kind != "b":
        kw["new_null_value"] = ctx.choice([0, 5, 99] + ([np.nan] if dt.kind == "f" else []))
        if not same_value(m.nv, np.nan) and not np.isnan(kw["new_null_value"]) and np.isclose(float(m.nv), kw["new_null_value"]):
            kw = {}
    ctx.note("astype", dt, str(kw))
    ctx.describe(astype=dt, kw=kw)
    out = r.astype(dt.name, **kw)
    want = m.data.astype(dt)
    nv = "skip"
    if m.nv is None:
        nv = None
    elif kw:
        nv = kw["new_null_value"]
    elif dt == m.dtype or (not same_value(m.nv, np.nan) and representable(m.nv, dt) and dt.kind != "b" and m.dtype.kind != "b"):
        # the null value is kept whenever the new dtype can hold it
        nv = m.nv if not (dt.kind == "f" and dt.itemsize == 2) and (dt.kind != "f" or abs(float(m.nv)) < 2**15) else "skip"
    judge(ctx, out, m, m.mask, nv, "astype", want=want, dtype=dt, burned=not (m.unburned and (dt == m.dtype or (kw and same_value(kw["new_null_value"], m.nv)))))
    return out, Obs_model(m, out)


def op_round(ctx, r, m):
    if m.dtype.kind == "b":
        raise Skip("boolean")
    d = ctx.choice([0, 1, 2, -1])
    ctx.note("round", d)
    out = r.round(d)
    judge(ctx, out, m, m.mask, m.nv, "round", want=np.round(m.data, d) if m.dtype.kind == "f" or d < 0 else m.data, dtype=m.dtype)
    return out, Obs_model(m, out)


OPS = {"set_null_value": op_set_null_value, "replace_null": op_replace_null, "set_null": op_set_null, "burn_mask": op_burn,
       "astype": op_astype, "round": op_round}


def start(ctx):
    m = model(ctx, dtypes=DTS, unburned=ctx.chance(0.3), max_side=9)
    ctx.count("junk_under_mask", m.unburned)
    return m, build(ctx, m)


def single(ctx):
    m, r = start(ctx)
    name = ctx.enum(list(OPS))
    ctx.describe(op=name)
    OPS[name](ctx, r, m)
    # the null mask of a raster is its mask
    o = Obs(r.to_null_mask())
    ctx.check(o.null is None and o.data.dtype == bool and not o.mask.any(), "to_null_mask:form", null=o.null, dtype=o.data.dtype)
    ctx.check(np.array_equal(o.data, m.mask), "to_null_mask:cells", got=o.data, want=m.mask)
    # the operand itself is as it was
    o = Obs(r)
    ctx.check(np.array_equal(o.mask, m.mask) and arrays_same(o.data, m.data) and same_value(o.null, m.nv), "operand_changed", op=name)


def history(ctx):
    m, r = start(ctx)
    seq = []
    for _ in range(ctx.int(2, 5)):
        name = ctx.choice(list(OPS))
        try:
            r, m = OPS[name](ctx, r, m)
        except Skip:
            continue
        seq.append(name)
        if ctx.chance(0.15):
            r = r.load()
    ctx.describe(history=seq)
    ctx.count("histories")


FAMILIES = {"single": (single, 480, 9000), "history": (history, 120, 3000)}
