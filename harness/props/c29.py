"""C29: vector data survives opening, saving, selection and tagging."""
import dask
import geopandas as gpd
import numpy as np
import pandas as pd
import pyproj
import shapely

import raster_tools as rts
import raster_tools.vector as V
from raster_tools import general
from core import expect_raises
from gen import M, crs_same, model
from vec import extent, partition, rand_geom

PROP = "C29"
RULE = ("Feature tables of 1-25 mixed geometries with integer, float, text, date and missing attributes in 1-6 partitions, taken "
        "through histories of copying, casting, reprojecting, tagging, loading, partitioning, selecting, iterating, saving and "
        "reopening (GeoPackage layers, shapefile, GeoJSON, opened in parts of a few features); after every step the table is "
        "compared row by row with a geopandas model. Non-trivial: several partitions.")


def table(ctx, n=None, kinds=("box", "tri", "blob", "ring", "multi", "line", "point"), crs=None, missing=False):
    m = M(np.zeros((1, 10, 10)), None, None, np.arange(10) * 10.0 + 500000, 4000000 - np.arange(10) * 10.0, None)
    n = n or ctx.int(1, 25)
    geoms = [rand_geom(ctx, extent(m), kinds) for _ in range(n)]
    crs = crs or ctx.choice(["EPSG:32611", "EPSG:5070", "EPSG:3857"])
    df = {"i": ctx.rng.integers(-5, 5, n), "f": np.round(ctx.rng.normal(0, 10, n), 3), "s": [f"name {k} é" for k in ctx.rng.integers(0, 9, n)]}
    if ctx.chance(0.3):
        df["u"] = ctx.rng.integers(0, 200, n).astype("uint8")
    g = gpd.GeoDataFrame(df, geometry=geoms, crs=crs)
    if missing and ctx.chance(0.3):
        g.loc[0, "geometry"] = None
    return g


def same_table(ctx, got, want, key, dtypes=True, geom_tol=0.0):
    ctx.check(len(got) == len(want), key + ":count", "features lost or added", got=len(got), want=len(want))
    ctx.check(list(got.columns) == list(want.columns), key + ":columns", got=list(got.columns), want=list(want.columns))
    for c in want.columns:
        if c == "geometry":
            for a, b in zip(got.geometry, want.geometry):
                if b is None or a is None:
                    ok = a is None and b is None
                elif geom_tol:
                    ok = shapely.hausdorff_distance(a, b) <= geom_tol
                else:
                    ok = a.equals_exact(b, 0) or (abs(a.area - b.area) < 1e-6 and abs(a.length - b.length) < 1e-6 and a.equals(b))  # files may turn rings, or make all features multi-part
                ctx.check(ok, key + ":geometry", "geometry changed", got=str(a)[:300], want=str(b)[:300])
        else:
            a, b = got[c], want[c]
            ok = a.tolist() == b.tolist() or all(x == y or (pd.isna(x) and pd.isna(y)) for x, y in zip(a, b))
            ctx.check(ok, key + ":attribute", "attribute values changed or were reordered", column=c, got=a.tolist(), want=b.tolist())
            if dtypes:
                ctx.check(a.dtype == b.dtype or str(a.dtype).startswith("str"), key + ":dtype", column=c, got=a.dtype, want=b.dtype)
    ctx.check((got.crs is None and want.crs is None) or pyproj.CRS(got.crs) == pyproj.CRS(want.crs), key + ":crs", got=got.crs, want=want.crs)
    ctx.count("features_compared", len(want))


def observe(ctx, v, want, key, **kw):
    same_table(ctx, v.data.compute(), want, key, **kw)
    ctx.check(len(v) == len(want) and v.size == len(want), key + ":size", "wrong number of features", got=len(v), want=len(want))
    fields = [c for c in want.columns if c != "geometry"]
    ctx.check(list(v.field_names) == fields and v.shape == (len(want), len(fields)), key + ":fields", got=(v.field_names, v.shape))
    if kw.get("dtypes", True):
        ctx.check([str(d)[:3] for d in v.field_dtypes] == [str(want[c].dtype)[:3] for c in fields], key + ":schema", got=v.field_dtypes)
    b = v.bounds
    b = np.asarray(b.compute() if dask.is_dask_collection(b) else b)
    ctx.check(np.allclose(b, want.total_bounds, equal_nan=True, rtol=1e-9, atol=1e-9 + kw.get("geom_tol", 0)), key + ":bounds", got=b, want=want.total_bounds)
    ctx.check(crs_same(v.crs, want.crs), key + ":vector_crs", got=v.crs)
    ctx.check(dask.is_dask_collection(v.data), key + ":lazy")


def fam_ops(ctx):
    """A history of operations."""
    g = table(ctx, missing=True)
    n = len(g)
    if ctx.chance(0.2):  # names that are taken
        taken = ctx.choice([["OBJECTID"], ["OBJECTID", "OBJECTID_1"], ["OBJECTID_1"], ["OBJECTID", "OBJECTID_2"]])
        g = g.assign(**{k: np.arange(n) for k in taken})[["i", *taken, *[c for c in g.columns if c not in ("i", *taken)]]]
        ctx.count("taken_names")
    parts = ctx.int(1, min(6, n))
    v = V.Vector(partition(ctx, g, parts)) if parts > 1 or ctx.chance(0.5) else V.Vector(g)
    orig, src = g.copy(), v
    ctx.interesting(parts > 1)
    ctx.count("multi_partition", parts > 1)
    steps = []
    ctx.describe(n=n, parts=parts)
    observe(ctx, v, g, "ops:start")
    for k in range(ctx.int(2, 5)):
        op = ctx.choice(["copy", "cast", "crs", "objectid", "load", "spatial", "buffer", "shapely", "dask", "select"])
        steps.append(op)
        ctx.note(op)
        ctx.describe(step=op)
        geo_ok = g.geometry.notna().all()
        if op == "copy":
            v = v.copy()
        elif op == "cast":
            c, t = ctx.choice([("i", "float64"), ("i", "int16"), ("f", "float32"), ("f", "int32"), ("i", "str")])
            if c not in g or g[c].dtype.kind not in "if":
                continue
            v, g = v.cast_field(c, t), g.assign(**{c: g[c].astype(t)})
            observe(ctx, v, g, "ops:cast", dtypes=t != "str")
            if t == "str":
                return
        elif op == "crs":
            to = ctx.choice(["EPSG:32611", "EPSG:5070", "EPSG:4326"])
            v, g = v.to_crs(to), g.to_crs(to)
        elif op == "objectid":
            name = ctx.choice([None, "FID", "OBJECTID"])
            if name in g:
                expect_raises(ctx, "ops:objectid_overwrites", lambda: v.add_objectid_column(name=name), ValueError)
                continue
            frame = ctx.chance(0.3)
            new = V.add_objectid_column(v.data, name) if frame else v.add_objectid_column(name=name)
            if frame:
                new = V.Vector(new)
            want = name
            if name is None:
                want = "OBJECTID"
                q = 0
                while want in g:
                    q += 1
                    want = f"OBJECTID_{q}"
            got = new.data.compute()
            ctx.check(want in got, "ops:objectid_name", got=list(got.columns), want=want)
            ids = got[want]
            ctx.check(ids.dtype == np.int64 and ids.is_unique and (ids > 0).all(), "ops:objectid_unique", "object ids are not unique", got=ids.tolist())
            again = [p.compute()[want].tolist() for p in new.data.partitions]
            ctx.check(sum(again, []) == ids.tolist(), "ops:objectid_partitions", "object ids change when a partition is computed alone",
                      got=again, want=ids.tolist())
            ctx.count("objectids", len(ids))
            v, g = new, g.assign(**{want: ids.to_numpy()})
        elif op == "load":
            v = ctx.choice([v.load(), v.to_lazy(ctx.int(1, 3))])
        elif op == "spatial":
            v = v.calculate_spatial_partitions()
            sp = v.data.spatial_partitions
            ctx.check(sp is not None and len(sp) == v.data.npartitions, "ops:spatial_partitions")
            for p, box in zip(v.data.partitions, sp):
                gg = p.compute().geometry.dropna()
                ctx.check(all(box.distance(x) < 1e-6 for x in gg), "ops:spatial_partition_bounds")
        elif op == "buffer":
            if not geo_ok or (g.crs and g.crs.is_geographic):
                continue
            d = float(ctx.int(1, 5))
            w = ctx.choice([v.buffer(d), v.simplify(d)]) if ctx.chance(0.5) else v.buffer(d)
            b = w.data.compute()
            if ctx.chance(0.5):
                w, b2 = v.buffer(d), g.geometry.buffer(d)
            else:
                w, b2 = v.simplify(d), g.geometry.simplify(d)
            observe(ctx, w, b2.to_frame("geometry"), "ops:buffer", geom_tol=1e-9)
        elif op == "shapely":
            ctx.check([None if s is None else s.wkb for s in v.to_shapely()] == [None if s is None else s.wkb for s in g.geometry], "ops:to_shapely")
            same_table(ctx, v.to_dask().compute(), g, "ops:to_dask")
            same_table(ctx, v.to_dataframe().compute(), g, "ops:to_dataframe")
            t = v.table.compute()
            ctx.check(list(t.columns) == [c for c in g.columns if c != "geometry"] and len(t) == n, "ops:table", got=list(t.columns))
        elif op == "dask":
            v = rts.get_vector(v.data) if hasattr(rts, "get_vector") else V.get_vector(v.data)
        else:
            i = ctx.int(-n, n - 1)
            one = v[i]
            j = i % n
            same_table(ctx, one.data.compute(), g.iloc[[j]], "ops:getitem")
            ctx.check(len(one) == 1, "ops:getitem_size", got=len(one))
            expect_raises(ctx, "ops:getitem_beyond", lambda: v[n], IndexError)
            expect_raises(ctx, "ops:getitem_beyond", lambda: v[-n - 1], IndexError)
            if n <= 6:
                rows = [w.data.compute() for w in v]
                ctx.check(len(rows) == n, "ops:iterate", got=len(rows))
                same_table(ctx, pd.concat(rows), g, "ops:iterate")
                ctx.count("iterated")
            ctx.count("selected")
        observe(ctx, v, g, f"ops:{op}")
        ctx.count("op:" + op)
    observe(ctx, src, orig, "ops:source_changed")


def fam_files(ctx):
    fmt = ctx.enum(["gpkg", "shp", "geojson", "layers"])
    kinds = {"shp": ctx.choice([("box", "tri", "blob", "ring"), ("line",), ("point",)])}.get(fmt, ("box", "tri", "multi", "line", "point"))
    g = table(ctx, kinds=kinds, crs="EPSG:4326" if fmt == "geojson" else None)
    if fmt == "geojson":
        # degrees
        g["geometry"] = g.geometry.affine_transform([1e-2, 0, 0, 1e-2, -5000, -40000])
    n = len(g)
    parts = ctx.int(1, min(6, n))
    v = V.Vector(partition(ctx, g, parts))
    old = getattr(V, "_TARGET_CHUNK_SIZE", None)
    small = ctx.int(1, 9)
    ctx.note(fmt, parts, small, g.geometry.to_wkb().sum())
    ctx.describe(fmt=fmt, n=n, parts=parts, chunk=small)
    tol = 1e-6 if fmt == "geojson" else 0
    try:
        if old is not None and ctx.chance(0.8):
            V._TARGET_CHUNK_SIZE = small
        path = f"{ctx.tmp}/v.{'gpkg' if fmt == 'layers' else fmt}"
        if fmt == "layers":
            k = ctx.int(2, 4)
            tabs = [g] + [table(ctx, n=ctx.int(1, 12), kinds=("point",)) for _ in range(k - 1)]
            for i, t in enumerate(tabs):
                t.to_file(path, layer=f"L{i}")
            ctx.check(V.list_layers(path) == [f"L{i}" for i in range(k)], "files:list_layers", got=V.list_layers(path))
            got = rts.open_vectors(path)
            ctx.check(len(got) == k, "files:layers", got=len(got), want=k)
            for w, t in zip(got, tabs):
                observe(ctx, w, t, "files:layer", dtypes=False)
            pick = sorted(ctx.rng.choice(k, 2, replace=False).tolist(), reverse=ctx.chance(0.5))
            for sel in (pick, [f"L{i}" for i in pick]):
                for w, i in zip(rts.open_vectors(path, layers=sel), pick):
                    observe(ctx, w, tabs[i], "files:picked_layer", dtypes=False)
            i = pick[0]
            observe(ctx, rts.open_vectors(path, layers=ctx.choice([i, f"L{i}", [i]])), tabs[i], "files:one_layer", dtypes=False)
            ctx.check(V.count_layer_features(path, f"L{i}") == len(tabs[i]) == V.count_layer_features(path, i), "files:count_layer")
            for bad in (k, -1, "nope", ["L0", 1], []):
                expect_raises(ctx, f"files:bad_layer:{bad}", lambda b=bad: rts.open_vectors(path, layers=b), ValueError, TypeError)
            expect_raises(ctx, "files:several_layers", lambda: V.get_vector(path), ValueError)
            ctx.count("layers", k)
            w = got[0]
        else:
            w = v.save(path)
            cmp = g.drop(columns=[]) if fmt != "geojson" else g
            observe(ctx, w, cmp, "files:saved", dtypes=False, geom_tol=tol)
            same_table(ctx, gpd.read_file(path), g, "files:written", dtypes=False, geom_tol=tol)
            w = V.get_vector(path)
            observe(ctx, w, g, "files:reopened", dtypes=False, geom_tol=tol)
            i = ctx.int(0, n - 1)
            same_table(ctx, w[i].data.compute(), g.iloc[[i]], "files:getitem", dtypes=False, geom_tol=tol)
        w = w.add_objectid_column()
        ids = w.data.compute().OBJECTID
        ctx.check(ids.is_unique, "files:objectid_unique", got=ids.tolist())
        ctx.interesting(w.data.npartitions > 1)
        ctx.count("opened_in_parts", w.data.npartitions > 1)
        ctx.count("format:" + fmt)
    finally:
        if old is not None:
            V._TARGET_CHUNK_SIZE = old
    expect_raises(ctx, "files:missing", lambda: rts.open_vectors(ctx.tmp + "/none.gpkg"), IOError)


class Lin:
    def __init__(self, k):
        self.k = k
        self.rows = 0

    def predict(self, x):
        x = np.asarray(x)
        out = np.stack([(x * (np.arange(x.shape[1]) + 1 + j)).sum(1) for j in range(self.k)], 1)
        return out[:, 0] if self.k == 1 and x.shape[1] % 2 else out


def fam_predict(ctx):
    g = table(ctx)
    parts = ctx.int(1, min(6, len(g)))
    v = V.Vector(partition(ctx, g, parts))
    k = ctx.int(1, 3)
    cols = ctx.choice([["i", "f"], ["f", "i"], ["f"], ["i"]])
    prefix = ctx.choice(["pred_", "p"])
    ctx.note(cols, k, parts, g.f.to_numpy())
    ctx.describe(cols=cols, k=k, parts=parts)
    out = v.model_predict(Lin(k), cols, k, prefix) if ctx.chance(0.5) else general.model_predict_vector(v, Lin(k), cols, k, prefix)
    x = g[cols].to_numpy(dtype="f8")
    want = g.copy()
    for j in range(k):
        want[f"{prefix}{j+1}"] = (x * (np.arange(len(cols)) + 1 + j)).sum(1)
    got = out.data.compute()
    ctx.check(list(got.columns) == list(out.data.columns), "predict:meta", got=list(got.columns))
    for j in range(k):
        c = f"{prefix}{j+1}"
        ctx.check(c in got and np.allclose(got[c], want[c]), "predict:values", "a prediction is on the wrong feature", got=got.get(c), want=want[c])
    same_table(ctx, got[list(g.columns)], g, "predict:features")
    same_table(ctx, v.data.compute(), g, "predict:input_changed")
    ctx.interesting(parts > 1)
    ctx.count("predictions", len(g) * k)
    expect_raises(ctx, "predict:bad_field", lambda: v.model_predict(Lin(1), ["nope"]), KeyError)


FAMILIES = {"ops": (fam_ops, 110, 1800), "files": (fam_files, 40, 600), "predict": (fam_predict, 30, 500)}
REQUIRED = ["features_compared", "multi_partition", "objectids", "selected", "iterated", "layers", "opened_in_parts", "predictions"] + [
    "format:" + k for k in ("gpkg", "shp", "geojson", "layers")]
