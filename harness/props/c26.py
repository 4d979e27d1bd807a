"""Constructors and model prediction fill the right cells."""
import threading

import geopandas as gpd
import numpy as np
import pandas as pd
import raster_tools as rts
from affine import Affine
from odc.geo.geobox import GeoBox
from raster_tools import creation
from raster_tools.general import ModelPredictAdaptor, model_predict_raster, model_predict_vector

import gen
import vec
from core import Skip, expect_raises

PROP = "C26"
RULE = ("one case = one constructor call on a generated template, or one prediction with a model that logs every row it is given; "
        "non-trivial when the template has nulls or several chunks")
REQUIRED = ["constructed", "masks_copied", "by_keyword", "predictions", "model_rows", "geobox_templates", "random_cells"]
OUT_DT = [None, "uint8", "int16", "int32", "int64", "float32", "float64", "uint16", "int8"]


def template(ctx, **kw):
    if ctx.chance(0.2):
        ctx.count("geobox_templates")
        ny, nx = ctx.int(1, 12), ctx.int(1, 12)
        x, y = gen.rand_grid(ctx, ny, nx)
        rx, ry = ctx.choice([1.0, 30.0]), ctx.choice([1.0, 10.0])
        x0, y0 = x[0] - 0.5, y[0] + 0.5
        crs = ctx.choice(["EPSG:3857", "EPSG:5070"])
        gb = GeoBox((ny, nx), Affine(rx, 0, x0, 0, -ry, y0), crs)
        m = gen.M(np.zeros((1, ny, nx)), np.zeros((1, ny, nx), bool), None, x0 + rx * (np.arange(nx) + 0.5), y0 - ry * (np.arange(ny) + 0.5), crs)
        ctx.note(ny, nx, x0, y0)
        return m, gb, True
    m = gen.model(ctx, unburned=ctx.chance(0.2), **kw)
    return m, gen.build(ctx, m), False


def grid_and_mask(ctx, m, o, bands, copied, isgb):
    gen.check_wellformed(ctx, o)
    gen.check_grid(ctx, o, m)
    ctx.count("constructed")
    ctx.check(o.data.shape == (bands, *m.shape[1:]), "shape", got=o.data.shape, want=(bands, *m.shape[1:]))
    if copied and m.nv is not None:
        ctx.count("masks_copied")
        want = m.mask if bands == m.shape[0] else np.stack([m.mask[0]] * bands)
        ctx.check(np.array_equal(o.mask, want), "copied_mask", "the template's nulls were not copied", got=o.mask, want=want)
        ctx.check(o.null is not None, "copied_mask:null_value")
        ctx.interesting(want.any())
    else:
        ctx.check(not o.mask.any() and o.null is None, "unmasked", "nulls appeared without being asked for", got=o.mask, null=o.null)
        ctx.interesting(len(o.chunks[1]) > 1 or len(o.chunks[2]) > 1)


def f_constant(ctx):
    m, t, isgb = template(ctx)
    fn = ctx.enum(["full", "zeros", "ones", "constant", "empty", "full"])
    dt = ctx.choice(OUT_DT)
    bands = ctx.choice([1, 1, 2, 3, m.shape[0]])
    copy = not isgb and ctx.chance(0.6)
    value = ctx.choice([7, -3, 2.5, 100, 0, 1, 12345, True, np.float32(3.25), np.int16(9)])
    if dt is not None and np.dtype(dt).kind in "ui":
        ii = np.iinfo(dt)
        if not (ii.min <= value <= ii.max) or float(value) != int(value):
            value = 5
    kw = dict(bands=bands, copy_mask=copy)
    if dt is not None or ctx.chance(0.5):
        kw["dtype"] = dt
    ctx.describe(fn=fn, value=value, **kw)
    fns = {"full": creation.full_like, "constant": creation.constant_raster, "zeros": creation.zeros_like, "ones": creation.ones_like, "empty": creation.empty_like}
    want = {"zeros": 0, "ones": 1, "empty": None}.get(fn, value)
    spelling = ctx.choice(["positional", "positional", "template", "raster_template"])
    if ctx.chance(0.1):
        kw["bands"] = ctx.choice([np.int64(bands), str(bands), float(bands)])
    args = ()
    if fn in ("full", "constant"):
        if ctx.chance(0.1):
            value, want = str(float(value)), float(value)
        if spelling == "positional":
            args = (value,)
        else:
            kw["value"] = value
    if spelling == "positional":
        args = (t, *args)
    else:
        kw[spelling] = t
        ctx.count("by_keyword")
    out = fns[fn](*args, **kw)
    o = gen.Obs(out)
    grid_and_mask(ctx, m, o, bands, copy, isgb)
    if dt is not None:
        ctx.check(o.data.dtype == np.dtype(dt), "dtype", got=o.data.dtype, want=dt)
    if want is not None:
        if dt is None:
            w = np.asarray(want)
        else:
            w = np.asarray(want).astype(dt)
        v = ~o.mask
        ctx.count("cells", v.sum())
        ctx.check((o.data[v] == w).all(), "value", "not the requested value", got=o.data, want=w)


def f_random(ctx):
    m, t, isgb = template(ctx)
    copy = not isgb and ctx.chance(0.5)
    bands = ctx.choice([1, 2, m.shape[0]])
    d, params, lo, hi, exact = ctx.enum([
        ("normal", (5.0, 0.0), 5, 5, True), ("n", (-2.0, 1e-6), -2 - 1e-4, -2 + 1e-4, False), ("uniform", (), 0, 1, False), ("u", [1], 0, 1, False),
        ("binomial", (9, 1.0), 9, 9, True), ("b", (4, 0.5), 0, 4, False), ("poisson", (0.0,), 0, 0, True), ("p", [1000.0], 700, 1300, False),
        ("weibull", (1e7,), 0.99, 1.01, False), ("W", [2.0], 0, 20, False), ("Normal", (100.0, 1.0), 90, 110, False)])
    ctx.describe(distribution=d, params=params, copy=copy, bands=bands)
    out = creation.random_raster(t, d, bands=bands, params=params, copy_mask=copy)
    o = gen.Obs(out)
    grid_and_mask(ctx, m, o, bands, copy, isgb)
    v = o.data[~o.mask]
    ctx.count("random_cells", v.size)
    ctx.check(((v >= lo) & (v <= hi)).all(), "random:range", "value outside the distribution's range", got=v, want=(lo, hi))
    if d.lower() in ("b", "p", "binomial", "poisson"):
        ctx.check((v == np.floor(v)).all(), "random:integers", got=v)
    if d.lower() in ("u", "uniform", "n", "normal", "w") and not exact and v.size > 1:
        ctx.check(np.unique(v).size == v.size, "random:repeats", "a continuous distribution repeats values: blocks share a stream", got=v)


def f_random_stats(ctx):
    """Means and spreads of large samples (8 sigma)."""
    ny = nx = 120
    x, y = gen.rand_grid(ctx, ny, nx)
    m = gen.M(np.zeros((1, ny, nx)), np.zeros((1, ny, nx), bool), None, x, y, "EPSG:3857")
    t = gen.build(ctx, m, chunks=((50, 50, 20), (70, 50)))
    mu, sd = float(ctx.int(-5, 5)), float(ctx.choice([0.5, 2.0, 7.0]))
    n, p = ctx.int(3, 30), float(ctx.choice([0.2, 0.5, 0.7]))
    lam = float(ctx.choice([0.7, 4.0, 20.0]))
    from math import gamma
    a = float(ctx.choice([1.0, 2.0, 3.5]))
    d, params, mean, std = ctx.enum([("normal", (mu, sd), mu, sd), ("binomial", (n, p), n * p, np.sqrt(n * p * (1 - p))), ("poisson", (lam,), lam, np.sqrt(lam)),
                                     ("uniform", (), 0.5, np.sqrt(1 / 12)),
                                     ("weibull", (a,), gamma(1 + 1 / a), np.sqrt(gamma(1 + 2 / a) - gamma(1 + 1 / a)**2)), (None, None, 1, 0.5)])
    out = creation.random_raster(t) if d is None else creation.random_raster(t, d, params=params)
    o = gen.Obs(out)
    ctx.describe(distribution=d, params=params)
    ctx.note(d, params)
    v = o.data.ravel().astype("f8")
    ctx.count("random_cells", v.size)
    ctx.check(abs(v.mean() - mean) < 8 * std / np.sqrt(v.size), "random:mean", got=v.mean(), want=mean, d=d, params=params)
    ctx.check(abs(v.std() - std) < 0.12 * std, "random:spread", got=v.std(), want=std, d=d, params=params)
    ctx.interesting()


MODELS = {}


def _same_model(key):
    return MODELS[key]


class Model:
    """Predicts a fixed function of the rows and logs them."""

    def __init__(self, nout, one_d):
        self.rows, self.lock, self.nout, self.one_d = [], threading.Lock(), nout, one_d
        self.calls = 0

    def predict(self, x):
        x = np.asarray(x, dtype="f8")
        with self.lock:
            self.calls += 1
            self.rows.append(x.copy())
        out = np.stack([(x * (np.arange(x.shape[1]) + 1 + k)).sum(axis=1) + 10 * k for k in range(self.nout)], axis=1) if x.size else np.zeros((len(x), self.nout))
        return out[:, 0] if self.one_d else out

    __call__ = predict

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):  # copies made by dask are the same object: it logs for all of them
        MODELS[id(self)] = self
        return _same_model, (id(self),)


class Transformer(Model):
    predict = None

    def transform(self, x):
        return Model.predict(self, x)


def expected(X, nout):
    return np.stack([(X * (np.arange(X.shape[1]) + 1 + k)).sum(axis=1) + 10 * k for k in range(nout)], axis=1)


def make_model(ctx, nout):
    one_d = nout == 1 and ctx.chance(0.5)
    how = ctx.choice(["predict", "call", "method"])
    if how == "predict":
        mod = Model(nout, one_d)
        return mod, mod
    if how == "call":
        mod = Model(nout, one_d)
        return mod, ModelPredictAdaptor(mod)
    mod = Transformer(nout, one_d)
    return mod, ModelPredictAdaptor(mod, "transform")


def f_predict_raster(ctx):
    dts = ["uint8", "int16", "int32", "uint16", "float32", "float64"]
    m = gen.model(ctx, dtypes=dts, kind=ctx.choice(["small", "cat", "ramp"]), max_bands=4, max_side=14, unburned=ctx.chance(0.25))
    r = gen.build(ctx, m)
    nout = ctx.choice([1, 1, 2, 3])
    log, model = make_model(ctx, nout)
    ctx.describe(nout=nout, model=type(model).__name__)
    import dask
    with dask.config.set({"array.chunk-size": ctx.choice(["128MiB", "64B", "512B"])}):
        out = model_predict_raster(r, model, nout)
        ctx.check(log.calls == 0 or sum(len(x) for x in log.rows) < m.data[0].size, "predict:eager", "the model was run on the data before the result was computed")
        log.rows.clear()
        o = gen.Obs(out, scheduler=ctx.choice(["sync", "threads"]))
    gen.check_wellformed(ctx, o)
    gen.check_grid(ctx, o, m)
    nb, ny, nx = m.shape
    X = np.moveaxis(m.data.astype("f8"), 0, -1).reshape(-1, nb)
    null = m.mask.any(axis=0)
    want = np.moveaxis(expected(X, nout), -1, 0).reshape(nout, ny, nx)
    ctx.count("predictions", (~null).sum())
    ctx.count("model_rows", sum(len(x) for x in log.rows))
    ctx.interesting(null.any() or len(o.chunks[1]) > 1 or len(o.chunks[2]) > 1)
    gen.check_cells(ctx, o, want, np.stack([null] * nout), rtol=1e-6, atol=1e-5, key="predict")
    # every cell valid in all bands is given to the model exactly once, as its own band vector
    given = np.concatenate([x for x in log.rows if x.size] or [np.zeros((0, nb))])
    ctx.check(given.shape[1] == nb if given.size else True, "predict:width", got=given.shape)
    v = ~null.ravel()
    a = pd.Series([tuple(t) for t in np.round(given, 3)]).value_counts()
    b = pd.Series([tuple(t) for t in np.round(X[v].astype("f4" if m.dtype == "f4" else "f8").astype("f8"), 3)]).value_counts()
    for k, n in b.items():
        ctx.check(a.get(k, 0) >= n, "predict:rows", "the band vector of a valid cell was not given to the model", row=k, given=int(a.get(k, 0)), cells=int(n))
    ctx.check(len(given) <= 2 * ny * nx, "predict:repeated", "cells were given to the model several times", rows=len(given), cells=ny * nx)


def f_predict_vector(ctx):
    rng = ctx.rng
    n = ctx.int(1, 30)
    ext = (0, 0, 100, 100, 1, 1)
    cols = {f"f{i}": rng.uniform(-5, 5, n).round(2) for i in range(ctx.int(1, 4))}
    for c in cols:
        if ctx.chance(0.4):
            cols[c][rng.random(n) < 0.3] = np.nan
    if ctx.chance(0.4):
        cols["k"] = rng.integers(0, 9, n)
    df = gpd.GeoDataFrame(cols, geometry=[vec.rand_geom(ctx, ext) for _ in range(n)], crs="EPSG:5070")
    fields = [str(c) for c in rng.permutation([c for c in df.columns if c != "geometry"])][: ctx.int(1, 4)]
    v = rts.vector.Vector(vec.partition(ctx, df)) if ctx.chance(0.7) else df
    nout = ctx.choice([1, 2, 3])
    log, model = make_model(ctx, nout)
    prefix = ctx.choice(["pred_", "p", "out-"])
    ctx.note(df[fields].to_numpy(), nout)
    ctx.describe(n=n, fields=fields, nout=nout, prefix=prefix)
    before = df.copy(deep=True)
    kw = {} if prefix == "pred_" else {"out_prefix": prefix}
    if isinstance(v, rts.vector.Vector) and ctx.chance(0.4):
        out = v.model_predict(model, fields, n_outputs=nout, **kw)
    else:
        out = model_predict_vector(v, model, fields, n_outputs=nout, **kw)
    log.rows.clear()
    res = out.data.compute()
    ctx.check(len(res) == n and list(res.columns)[: len(df.columns)] == list(df.columns), "vector:columns", got=list(res.columns), want=list(df.columns))
    names = [f"{prefix}{i + 1}" for i in range(nout)]
    ctx.check(list(res.columns)[len(df.columns):] == names, "vector:names", got=list(res.columns), want=names)
    ctx.check(list(out.data.columns) == list(res.columns), "vector:meta", "declared and computed columns differ", declared=list(out.data.columns), got=list(res.columns))
    X = df[fields].to_numpy(dtype="f8")
    bad = np.isnan(X).any(axis=1)
    want = expected(X, nout)
    got = res[names].to_numpy(dtype="f8")
    ctx.count("predictions", (~bad).sum())
    ctx.interesting(bad.any() or n > 3)
    ctx.check(np.isnan(got[bad]).all(), "vector:null", "a feature with a missing field has a prediction", got=got[bad])
    ctx.check(np.allclose(got[~bad], want[~bad], rtol=1e-9, atol=1e-9), "vector:values", "predictions stored at the wrong feature", got=got, want=want)
    given = np.concatenate([x for x in log.rows if x.size] or [np.zeros((0, len(fields)))])
    ctx.count("model_rows", len(given))
    s = lambda a: sorted(map(tuple, a.round(9)))  # noqa: E731
    ctx.check(s(given) == s(X[~bad]), "vector:rows", "the model was not called on exactly the complete rows", got=given, want=X[~bad])
    ctx.check(df.equals(before), "vector:mutated", "the input features were modified")
    for c in df.columns:
        if c != "geometry":
            ctx.check(gen.arrays_same(res[c].to_numpy(dtype="f8"), df[c].to_numpy(dtype="f8")), "vector:other_columns", col=c)


def f_errors(ctx):
    m = gen.model(ctx, dtype="float64")
    r = gen.build(ctx, m)
    df = gpd.GeoDataFrame({"a": [1.0, 2.0], "pred_1": [0.0, 0.0]}, geometry=[vec.rand_geom(ctx, (0, 0, 10, 10, 1, 1)) for _ in range(2)], crs="EPSG:5070")
    gb = GeoBox((3, 4), Affine(1, 0, 5, 0, -1, 9), "EPSG:5070")
    mod = Model(1, True)
    calls = [
        lambda: creation.zeros_like(r, bands=0), lambda: creation.full_like(r), lambda: creation.full_like(r, "x"), lambda: creation.ones_like(),
        lambda: creation.zeros_like(gb, copy_mask=True), lambda: creation.random_raster(r, "gauss"), lambda: creation.random_raster(r, "normal", params=(1,)),
        lambda: creation.random_raster(r, "poisson", params=()), lambda: creation.zeros_like(r, dtype="notadtype"), lambda: creation.empty_like(r, bands="x"),
        lambda: model_predict_raster(r, mod, 0), lambda: model_predict_vector(df, mod, ["a"]), lambda: model_predict_vector(df, mod, ["zz"]),
        lambda: model_predict_vector(df, mod, ["a"], n_outputs=0, out_prefix="q"), lambda: ModelPredictAdaptor(mod, "nope"), lambda: ModelPredictAdaptor(mod, 5),
        lambda: creation.random_raster(gb, copy_mask=True), lambda: creation.full_like(r, [1, 2]), lambda: creation.constant_raster(r, None),
        lambda: creation.zeros_like(r, raster_template=r), lambda: creation.zeros_like(3), lambda: creation.ones_like(r, bands=-2),
    ]
    k = ctx.index % len(calls)
    ctx.note(k)
    expect_raises(ctx, f"errors:{k}", calls[k])


FAMILIES = {
    "constant": (f_constant, 420, 6000),
    "random": (f_random, 160, 2000),
    "random_stats": (f_random_stats, 18, 120),
    "predict_raster": (f_predict_raster, 260, 4000),
    "predict_vector": (f_predict_vector, 120, 1500),
    "errors": (f_errors, 22, 44),
}
