"""C02: reductions see exactly the valid cells."""
import dask
import numpy as np

from gen import FLOAT_DTYPES, INT_DTYPES, build, model, same_value

PROP = "C02"
RULE = ("one case = one generated raster on which every reduction (method and numpy protocol) is evaluated and compared with "
        "numpy over the valid cells of the model; non-trivial when the raster has both valid and null cells or several chunks")
REQUIRED = ["reductions_compared", "cases_with_nulls", "cases_whole_chunk_null", "junk_under_mask"]

NAMES = ["min", "max", "sum", "prod", "mean", "std", "var", "all", "any"]


def reductions(ctx):
    unb = ctx.chance(0.4)
    kind = ctx.choice(["small", "cat", "ramp"])
    m = model(ctx, dtypes=INT_DTYPES + FLOAT_DTYPES * 3 + ["bool"], kind=kind, unburned=unb, max_side=12)
    nan_valid = False
    if m.dtype.kind == "f" and not same_value(m.nv, np.nan) and ctx.chance(0.2) and m.valid.any():
        # a NaN is an ordinary missing number for the nan-aware reductions
        idx = np.argwhere(m.valid)
        k = tuple(idx[ctx.int(0, len(idx) - 1)])
        m.data[k] = np.nan
        nan_valid = True
    r = build(ctx, m)
    vals = m.data[m.valid]
    if vals.size == 0:
        ctx.count("all_null_rasters")
        return
    ctx.count("cases_with_nulls", m.mask.any())
    ctx.count("junk_under_mask", m.unburned)
    mc = r.mask.compute()
    ctx.count("cases_whole_chunk_null", any(b.compute().all() for b in r.mask.blocks.ravel()) if m.mask.any() else 0)
    ctx.interesting(vals.size > 1)
    ctx.describe(nan_among_valid=nan_valid)
    for name in NAMES:
        via = ctx.choice(["method", "numpy"])
        out = getattr(r, name)() if via == "method" else getattr(np, name)(r)
        ctx.check(dask.is_dask_collection(out), "reduce:eager", "a reduction must be a dask result", name=name)
        out = out.compute()
        if name == "prod" and m.dtype.kind == "f":
            nz = np.abs(vals[(vals != 0) & ~np.isnan(vals)].astype("f8"))
            if np.abs(np.log2(nz)).sum() > 100:
                continue  # over/underflow of partial products depends on the order
        npf = getattr(np, name if name in ("all", "any") else "nan" + name)
        if np.isnan(vals.astype("f8")).all():
            continue
        want = npf(vals)
        if m.dtype.kind != "f" and name not in ("mean", "std", "var"):
            ok = out == want
        else:
            with np.errstate(all="ignore"):
                if m.dtype == np.dtype("float32"):
                    rt = 1e-4
                else:
                    rt = 1e-8
                scale = float(np.nanmax(np.abs(vals.astype("f8")))) or 1.0
                if name in ("min", "max"):
                    ok = out == want
                elif name in ("sum", "mean", "std"):
                    n = vals.size if name == "sum" else 1
                    ok = np.isclose(float(out), float(want), rtol=rt, atol=rt * scale * n)
                elif name == "var":
                    ok = np.isclose(float(out), float(want), rtol=rt, atol=rt * scale * scale)
                else:
                    ok = np.isclose(float(out), float(want), rtol=rt * 10, atol=0, equal_nan=True)
        ctx.count("reductions_compared")
        ctx.note(name, via)
        ctx.check(bool(ok), f"reduce:{name}", f"{name} over the valid cells is wrong", got=out, want=want, via=via, valid=vals)


FAMILIES = {"reductions": (reductions, 320, 6000)}
