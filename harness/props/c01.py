"""C01: cell-wise operators equal numpy and propagate nulls."""
import operator

import dask.array as da
import numpy as np

from core import Skip
from gen import (ALL_DTYPES, FLOAT_DTYPES, INT_DTYPES, Obs, arrays_same, build, check_cells, check_grid,
                 check_wellformed, model, rand_data)

PROP = "C01"
RULE = ("one case = one operator/ufunc evaluated by the real Raster code on generated operands and compared cell by cell "
        "with numpy on the plain arrays (values, dtype, mask, grid); non-trivial when at least one valid cell was compared "
        "and the operands hold nulls or more than one chunk or value")
REQUIRED = ["cells_compared", "null_cells_seen", "inplace_pairs", "bandwise_ops", "multi_output_ops"]

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
       "%": operator.mod, "**": operator.pow, "<": operator.lt, "<=": operator.le, ">": operator.gt,
       ">=": operator.ge, "==": operator.eq, "!=": operator.ne, "&": operator.and_, "|": operator.or_,
       "^": operator.xor}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv,
        "%": operator.imod, "&": operator.iand, "|": operator.ior, "^": operator.ixor}
BIN_UFUNCS = ["add", "subtract", "multiply", "true_divide", "floor_divide", "remainder", "fmod", "maximum", "minimum",
              "fmax", "fmin", "hypot", "arctan2", "copysign", "logaddexp", "greater", "greater_equal", "less",
              "less_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_xor", "float_power", "heaviside",
              "gcd", "lcm", "left_shift", "right_shift", "bitwise_and", "bitwise_or", "bitwise_xor", "nextafter"]
UN_UFUNCS = ["negative", "absolute", "fabs", "invert", "logical_not", "sign", "sqrt", "square", "exp", "exp2", "expm1",
             "log", "log2", "log10", "log1p", "isnan", "isfinite", "isinf", "floor", "ceil", "trunc", "rint", "sin",
             "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh", "deg2rad", "rad2deg", "cbrt",
             "reciprocal", "positive", "signbit", "spacing"]


def strong(v):
    """Python numbers act as 64-bit numpy scalars."""
    if type(v) is int:
        return np.int64(v)
    if type(v) is float:
        return np.float64(v)
    return v


def tol(dtype):
    dtype = np.dtype(dtype)
    if dtype.kind != "f":
        return 0.0
    return {2: 4e-3, 4: 3e-6, 8: 1e-12}.get(dtype.itemsize, 1e-12)


def is_err(f, *a):
    try:
        return f(*a), None
    except (TypeError, ValueError) as e:
        return None, e


def other_operand(ctx, m, dtypes):
    """Returns (kind, real operand, plain array/scalar, mask of the operand)."""
    kind = ctx.choice(["raster", "int", "float", "npscalar", "array", "dask", "xarray", "bool"],
                      p=[0.42, 0.12, 0.12, 0.06, 0.12, 0.06, 0.06, 0.04])
    none = np.zeros(m.shape, bool)
    if kind in ("raster", "xarray"):
        unb = kind == "raster" and ctx.chance(0.3)
        m2 = model(ctx, shape=m.shape, grid=(m.x, m.y), crs=m.crs, dtypes=dtypes, unburned=unb)
        if kind == "xarray" and m2.nv is None and m2.dtype.kind == "f":
            kind = "raster"  # an array without nodata is opened with NaN as its null value
        r2 = build(ctx, m2)
        return kind, (r2 if kind == "raster" else r2.xdata), m2.data, m2.mask
    if kind == "int":
        v = ctx.int(0, 6) if m.dtype.kind != "i" else ctx.int(-4, 6)
        return kind, v, v, none
    if kind == "float":
        v = float(ctx.choice([0.5, 2.0, -1.5, 3.25, 100.125]))
        return kind, v, v, none
    if kind == "bool":
        v = ctx.chance(0.5)
        return kind, v, v, none
    if kind == "npscalar":
        v = np.dtype(ctx.choice(INT_DTYPES + FLOAT_DTYPES)).type(ctx.int(1, 9))
        return kind, v, v, none
    shape = ctx.choice([m.shape, m.shape[1:], (1,), (m.shape[2],), (m.shape[0], 1, 1)])
    a = rand_data(ctx, ctx.choice(dtypes), shape, "small")
    if kind == "dask":
        return kind, da.from_array(a, chunks=-1), a, none
    if ctx.chance(0.15) and a.ndim == 1 and a.dtype.kind == "f":
        return "list", a.tolist(), np.asarray(a.tolist()), none
    return kind, a, a, none


def judge(ctx, name, out, want, mask, m, masked, exact):
    o = Obs(out)
    ctx.count("ops_executed")
    check_wellformed(ctx, o, f"form")
    check_grid(ctx, o, m)
    want = np.broadcast_to(np.asarray(want), m.shape)
    check_cells(ctx, o, want, mask, "ufunc", rtol=0.0 if exact else tol(want.dtype), dtype=want.dtype,
                atol=0.0 if exact else tol(want.dtype) * 1e-2)
    ctx.check((o.null is not None) == masked, "ufunc:null_value_presence",
              "a result has a null value exactly when an operand has one", null=o.null, masked=masked)
    ctx.count("null_cells_seen", mask.sum())
    ctx.interesting((~mask).any() and m.data.size > 1)


def binary(ctx):
    dtypes = INT_DTYPES + FLOAT_DTYPES + (["bool"] if ctx.chance(0.15) else [])
    m = model(ctx, dtypes=dtypes, max_bands=3, max_side=9, unburned=ctx.chance(0.3))
    r = build(ctx, m)
    kind, real, plain, omask = other_operand(ctx, m, dtypes)
    reflected = ctx.chance(0.4) and kind not in ("xarray", "dask")
    if ctx.chance(0.5):
        name = ctx.enum(list(OPS))
        f = OPS[name]
    else:
        name = ctx.enum(BIN_UFUNCS)
        f = getattr(np, name)
    pa, pb = m.data, strong(plain)
    if "shift" in name and np.asarray(plain).dtype.kind in "iu":
        if kind != "int" or not 0 <= plain < 7:
            raise Skip("shift amounts are covered by shift()")
    if name in ("**",) and not (m.dtype.kind == "f" and np.asarray(plain).dtype.kind == "f"):
        if np.asarray(plain).dtype.kind in "iu" and np.any(np.asarray(plain) < 0):
            raise Skip("integer to negative power")
        if np.any(m.data < 0) and reflected:
            raise Skip("integer to negative power")
    ctx.describe(op=name, other=kind, reflected=reflected)
    ctx.note(name, kind, reflected, np.asarray(plain))
    if reflected:
        want, err = is_err(f, pb, pa)
    else:
        want, err = is_err(f, pa, pb)
    if err is not None:
        try:
            f(real, r) if reflected else f(r, real)
        except (TypeError, ValueError):
            ctx.count("refused_like_numpy")
            return
        ctx.fail("ufunc:accepted", "numpy refuses these operand types", op=name)
    isfl = m.dtype.kind == "f" or np.asarray(strong(plain)).dtype.kind == "f"
    out = f(real, r) if reflected else f(r, real)
    omasked = kind in ("raster", "xarray") and (real.null_value if kind == "raster" else real.rio.nodata) is not None
    masked = m.nv is not None or omasked
    exact = name in ("+", "-", "*", "<", "<=", ">", ">=", "==", "!=", "&", "|", "^", "/") or want.dtype.kind != "f"
    judge(ctx, name, out, want, m.mask | omask, m, masked, exact)
    # the operand is untouched and the in-place form agrees
    if name in IOPS and not reflected:
        ri = r.copy()
        alias = ri
        res = IOPS[name](ri, real)
        ctx.check(res is alias, "inplace:identity", "an in-place operator returned another object", op=name)
        judge(ctx, name, res, want, m.mask | omask, m, masked, exact)
        ctx.count("inplace_pairs")
        o = Obs(r)
        check_cells(ctx, o, m.data, m.mask, "inplace:source", dtype=m.dtype)


def unary(ctx):
    m = model(ctx, dtypes=INT_DTYPES + FLOAT_DTYPES * 3 + ["bool"], max_side=9, unburned=ctx.chance(0.3))
    r = build(ctx, m)
    name = ctx.enum(UN_UFUNCS)
    f = getattr(np, name)
    ctx.describe(op=name)
    ctx.note(name)
    want, err = is_err(f, m.data)
    if err is not None:
        try:
            f(r)
        except (TypeError, ValueError):
            ctx.count("refused_like_numpy")
            return
        ctx.fail("ufunc:accepted", "numpy refuses this operand type", op=name)
    out = f(r)
    if ctx.chance(0.5) and name in ("negative", "absolute", "invert", "positive"):
        out = {"negative": operator.neg, "absolute": abs, "invert": operator.invert, "positive": operator.pos}[name](r)
    judge(ctx, name, out, want, m.mask, m, m.nv is not None, want.dtype.kind != "f" or name in ("negative", "absolute", "square", "floor", "ceil", "trunc", "rint"))


def multi(ctx):
    m = model(ctx, dtypes=INT_DTYPES + FLOAT_DTYPES * 2, max_side=8)
    r = build(ctx, m)
    name = ctx.enum(["divmod", "modf", "frexp", "divmod_op"])
    ctx.describe(op=name)
    if name in ("divmod", "divmod_op"):
        m2 = model(ctx, shape=m.shape, grid=(m.x, m.y), crs=m.crs, dtypes=INT_DTYPES[:3] + FLOAT_DTYPES)
        r2 = build(ctx, m2)
        want, err = is_err(np.divmod, m.data, m2.data)
        outs = divmod(r, r2) if name == "divmod_op" else np.divmod(r, r2)
        mask, masked = m.mask | m2.mask, m.nv is not None or m2.nv is not None
    else:
        want, err = is_err(getattr(np, name), m.data)
        outs = getattr(np, name)(r)
        mask, masked = m.mask, m.nv is not None
    ctx.check(len(outs) == len(want), "multi:count", got=len(outs))
    for o, w in zip(outs, want):
        judge(ctx, name, o, w, mask, m, masked, False)
    ctx.count("multi_output_ops")


def shift(ctx):
    m = model(ctx, dtypes=INT_DTYPES, kind="small", max_side=8)
    r = build(ctx, m)
    name = ctx.enum(["left_shift", "right_shift"])
    f = getattr(np, name)
    if ctx.chance(0.5):
        v = ctx.int(0, 5)
        want, out, mask, masked = is_err(f, m.data, np.int64(v)), (lambda: f(r, v)), m.mask, m.nv is not None
    else:
        m2 = model(ctx, shape=m.shape, grid=(m.x, m.y), crs=m.crs, dtypes=["uint8", "int16"], kind="cat", nulls=ctx.chance(0.5), nv=7)
        m2.data = np.clip(m2.data, 0, 7)
        r2 = build(ctx, m2)
        want, out, mask, masked = is_err(f, m.data, m2.data), (lambda: f(r, r2)), m.mask | m2.mask, m.nv is not None or m2.nv is not None
    want, err = want
    ctx.describe(op=name)
    if err is not None:
        try:
            out()
        except TypeError:
            ctx.count("refused_like_numpy")
            return
        ctx.fail("ufunc:accepted", "numpy refuses these operand types", op=name)
    judge(ctx, name, out(), want, mask, m, masked, True)


def bandwise(ctx):
    nb = ctx.int(2, 5)
    side = [s for s in range(2, 10) if s != nb]
    m = model(ctx, dtypes=INT_DTYPES + FLOAT_DTYPES, shape=(nb, ctx.int(1, 8), ctx.choice(side)))
    r = build(ctx, m)
    names = ["+", "-", "*", "/", "//", "%", "<", ">=", "==", "!="]
    name = ctx.enum(names)
    f = OPS[name]
    vals = rand_data(ctx, ctx.choice(["int64", "float64", "uint8"]), (nb,), "small")
    real = ctx.choice(["list", "array", "tuple"])
    reflected = ctx.chance(0.4)
    v = {"list": vals.tolist(), "tuple": tuple(vals.tolist()), "array": vals}[real]
    plain = np.asarray(v).reshape(-1, 1, 1)
    if reflected and real != "array" and name in ("<", ">=", "==", "!="):
        reflected = False
    ctx.describe(op=name, bandvalues=vals, reflected=reflected)
    ctx.note(name, vals, reflected)
    out = f(v, r.bandwise) if reflected else f(r.bandwise, v)
    want = f(plain, m.data) if reflected else f(m.data, plain)
    judge(ctx, name, out, want, m.mask, m, m.nv is not None, want.dtype.kind != "f" or name in "+-*/")
    ctx.count("bandwise_ops")


def chain(ctx):
    """Whole expressions: nulls are the union, values the composition."""
    m = model(ctx, dtypes=["int16", "int32", "float32", "float64", "uint8"], max_side=9, kind="small")
    rs, ms = [build(ctx, m)], [m]
    for _ in range(ctx.int(1, 3)):
        mm = model(ctx, shape=m.shape, grid=(m.x, m.y), crs=m.crs, dtypes=["int16", "int32", "float32", "float64", "uint8"], kind="small")
        ms.append(mm)
        rs.append(build(ctx, mm))
    cur_r, cur_v, cur_m = rs[0], ms[0].data, ms[0].mask.copy()
    masked = ms[0].nv is not None
    desc = []
    for r, mm in zip(rs[1:], ms[1:]):
        op = ctx.choice(["+", "-", "*", "<", "&"])
        c = ctx.choice([2, 1.5, None])
        if op == "&" and (cur_v.dtype.kind == "f" or mm.dtype.kind == "f" or c == 1.5):
            op = "+"
        if op == "-" and cur_v.dtype.kind == "b" and mm.dtype.kind == "b":
            op = "+"
        cur_r = OPS[op](cur_r, r if c is None else r * c)
        cur_v = OPS[op](cur_v, mm.data if c is None else mm.data * strong(c))
        cur_m = cur_m | mm.mask
        masked |= mm.nv is not None
        desc.append((op, c))
    ctx.describe(expr=desc)
    ctx.note(desc)
    judge(ctx, "chain", cur_r, cur_v, cur_m, m, masked, False)


FAMILIES = {
    "binary": (binary, 520, 9000),
    "unary": (unary, 160, 3000),
    "multi": (multi, 32, 500),
    "shift": (shift, 32, 500),
    "bandwise": (bandwise, 60, 1000),
    "chain": (chain, 60, 1500),
}
