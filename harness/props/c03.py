"""C03: every operation returns a well-formed raster."""
import numpy as np
from raster_tools.raster import Raster

import gen
import ops
from core import Skip, sut

PROP = "C03"
RULE = ("single: one public operation of the catalogue (harness/ops.py) on a generated raster; chain: 2-6 random operations applied to each other's results; "
        "every raster returned at every step is computed and its structure judged; non-trivial when a raster was observed")
REQUIRED = ["wellformed_checks", "chain_steps", "grid_kept", "masked_results", "dtype_changes"]
NAMES = sorted(ops.OPS)


def judge(ctx, r, t, o, key):
    """One result raster of operation o on an input with metadata t."""
    with sut(ctx):
        obs = gen.Obs(r)
    # null_to_nan is documented to put NaN in the null cells whatever the null value
    gen.check_wellformed(ctx, obs, key, burned=o.name != "null_to_nan")
    ctx.count("masked_results", obs.mask.any())
    ctx.count("dtype_changes", obs.data.dtype != t.dtype)
    ny, nx = obs.shape[1:]
    a = obs.affine
    if nx > 1 and ny > 1:
        xs, ys = a.c + a.a * (np.arange(nx) + 0.5), a.f + a.e * (np.arange(ny) + 0.5)
        tol = 1e-6
        ctx.check(np.allclose(xs, obs.x, rtol=1e-9, atol=tol * abs(a.a)) and np.allclose(ys, obs.y, rtol=1e-9, atol=tol * abs(a.e)), key + ":affine",
                  "the transform and the coordinates disagree", affine=tuple(a), x=obs.x, y=obs.y)
        b = r.bounds
        want = (obs.x[0] - a.a / 2, obs.y[-1] + a.e / 2, obs.x[-1] + a.a / 2, obs.y[0] - a.e / 2)
        ctx.check(np.allclose(b, want, rtol=1e-9, atol=1e-6 * abs(a.a)), key + ":bounds", got=b, want=want)
    ctx.check(r.nbands == obs.shape[0] and r.size == obs.data.size, key + ":sizes", got=(r.nbands, r.size), want=obs.shape)
    g = o.grid
    if g in (True, "bands", "part", "pad", "coarse"):
        ctx.check(gen.crs_same(obs.crs, t.crs), key + ":crs", "the CRS changed", got=obs.crs, want=t.crs)
    if g is True:
        ctx.check(obs.shape[1:] == t.shape[1:], key + ":grid_shape", got=obs.shape, want=t.shape)
    if g in (True, "bands"):
        ctx.count("grid_kept")
        ctx.check(np.array_equal(obs.x, t.x) and np.array_equal(obs.y, t.y), key + ":grid", "the coordinates changed", got=(obs.x, obs.y), want=(t.x, t.y))
    if g == "part":
        ctx.check(np.isin(np.round(obs.x, 9), np.round(t.x, 9)).all() and np.isin(np.round(obs.y, 9), np.round(t.y, 9)).all(), key + ":part", "coordinates outside the input's",
                  got=(obs.x, obs.y), want=(t.x, t.y))
    if g == "pad":
        ctx.check(np.isin(np.round(t.x, 6), np.round(obs.x, 6)).all() and np.isin(np.round(t.y, 6), np.round(obs.y, 6)).all(), key + ":pad", got=(obs.x, obs.y), want=(t.x, t.y))
    return obs


def f_single(ctx):
    o = ops.OPS[ctx.enum(NAMES)]
    ms = ops.inputs(ctx, o)
    if ms is None:
        raise Skip("no input fits")
    ctx.describe(op=o.name)
    rs = ops.build_all(ctx, o, ms)
    t = ops.Meta.model(ms[0])
    args, call = o.f(ctx, t)
    ctx.describe(args=args)
    with sut(ctx):
        out = call(rs, args)
    for x in ops.flatten(out):
        if isinstance(x, Raster):
            ctx.interesting()
            judge(ctx, x, t, o, f"form:{o.name}")


def from_meta(ctx, o, t):
    """A second input on the grid of a computed raster."""
    m = gen.M(np.zeros(t.shape, t.dtype), np.zeros(t.shape, bool), t.nv, t.x, t.y, t.crs)
    return gen.build(ctx, ops.second(ctx, o.need, m))


def f_chain(ctx):
    m = gen.model(ctx, min_side=4, max_side=12, kind=ctx.choice(["small", "cat", "ramp"]), crs=ctx.choice(["EPSG:5070", "rand"]))
    r = gen.build(ctx, m)
    steps = []
    for _ in range(ctx.int(2, 6)):
        t = ops.Meta.of(r)
        if t.shape[1] * t.shape[2] * t.shape[0] > 3000 or t.shape[0] > 6:
            break
        cand = [o for o in ops.OPS.values() if not o.frame and o.group != "scalar" and o.pre(t) and not ("kind" in o.need and "proximity" not in o.name and o.name in ("cost_distance",))
                and not (o.need.get("nulls") is False and t.nv is not None) and o.name not in ("mosaic", "null_to_nan")
                and not (o.max_blocks and (len(steps) > 1 or r.data.numblocks[1] * r.data.numblocks[2] > o.max_blocks))]
        o = ctx.choice(sorted(cand, key=lambda q: q.name))
        rs = [r] + ([from_meta(ctx, o, t)] if o.n == 2 else [])
        args, call = o.f(ctx, t)
        steps.append((o.name, {k: (v if not hasattr(v, "geometry") else "frame") for k, v in args.items()}))
        ctx.desc = [d for d in ctx.desc if not d.startswith("steps=")]
        ctx.describe(steps=steps)
        try:
            out = call(rs, args)
        except Exception as e:  # noqa: BLE001
            ctx.count("refused_steps")
            ctx.count(f"refused:{o.name}:{type(e).__name__}")
            continue
        out = [x for x in ops.flatten(out) if isinstance(x, Raster)]
        if not out:
            continue
        ctx.count("chain_steps")
        ctx.interesting()
        for x in out:
            judge(ctx, x, t, o, f"form:{o.name}")
        r = ctx.choice(out)
        ctx.note(o.name)


FAMILIES = {
    "single": (f_single, 5 * len(NAMES), 90 * len(NAMES)),
    "chain": (f_chain, 110, 4000),
}
