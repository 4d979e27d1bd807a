"""A failed save reports the error, leaves no staging file and can be repeated."""
import contextlib
import os
import resource
import threading
from concurrent.futures import ThreadPoolExecutor

import dask
import numpy as np
import raster_tools as rts
import rasterio as rio

import gen
from core import Skip, sut
from props.c11 import compare_file, compare_raster, saved_form

PROP = "C12"
RULE = ("one case = one save during which a fault is injected (a task, a read, the write, the target), followed by a listing of the directory and "
        "by a second save without the fault, whose file is read back; non-trivial when the fault actually fired")
REQUIRED = ["faults_fired", "errors_reported", "repeated_saves", "cog_faults", "read_faults", "write_faults", "tile_faults", "old_targets_kept", "bad_targets"]
DT = ["uint8", "int16", "int32", "float32", "float64", "uint16"]


@contextlib.contextmanager
def below():
    """Records which calls into the writing libraries raised."""
    import rasterio.shutil as rs
    from rioxarray.raster_array import RasterArray

    log = {"raised": []}
    o_copy, o_write = rs.copy, RasterArray.to_raster

    def wrap(f):
        def call(*a, **kw):
            try:
                return f(*a, **kw)
            except BaseException as e:
                log["raised"].append(repr(e)[:200])
                raise

        return call

    rs.copy, RasterArray.to_raster = wrap(o_copy), wrap(o_write)
    try:
        yield log
    finally:
        rs.copy, RasterArray.to_raster = o_copy, o_write


class Boom(RuntimeError):
    pass


class BoomBase(BaseException):
    pass


class Fuse:
    """Raises at chosen block evaluations while armed; logs what it did."""

    def __init__(self, at, exc=Boom):
        self.at, self.exc = set(at), exc
        self.lock = threading.Lock()
        self.calls = self.fired = 0
        self.armed = True

    def __call__(self, x):
        with self.lock:
            n = self.calls
            self.calls += 1
            fire = self.armed and n in self.at
            self.fired += fire
        if fire:
            raise self.exc(f"injected fault at block {n}")
        return x

    def __dask_tokenize__(self):
        return ("fuse", id(self))

    def rearm(self, armed):
        self.armed, self.calls, self.fired = armed, 0, 0


def has(exc, cls):
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if isinstance(exc, cls) or cls.__name__ in str(exc) or "injected fault" in str(exc):
            return True
        exc = exc.__cause__ or exc.__context__
    return False


def make(ctx, fuse, **kw):
    kw.setdefault("max_side", 14)
    m = gen.model(ctx, dtypes=DT, min_side=4, crs="EPSG:5070", unburned=ctx.chance(0.2), **kw)
    chunks = tuple((n // 2, n - n // 2) if ctx.chance(0.5) else (n // 4, n // 4, n - 2 * (n // 4)) for n in m.shape[1:])
    base = gen.build(ctx, m, chunks=chunks)
    data = base.data.map_blocks(fuse, dtype=m.dtype, meta=np.array((), dtype=m.dtype))
    r = rts.data_to_raster(data, mask=base.mask if m.nv is not None else None, x=m.x, y=m.y, crs=m.crs, nv=m.nv)
    return m, r


def snapshot(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def check_again(ctx, m, r, path, kw, key):
    ctx.count("repeated_saves")
    nv = kw.get("null_value")
    form = saved_form(m, nv)
    with sut(ctx):
        back = r.save(path, **kw)
        compare_file(ctx, path, m, form, key=key + ":again")
        compare_raster(ctx, back, m, form, key=key + ":again")


def settings(ctx, m):
    kw = {}
    drv = ctx.choice([None, "COG", "GTiff"], p=[0.4, 0.45, 0.15])
    if drv:
        kw["driver"] = drv
    if ctx.chance(0.4):
        kw["compress"] = ctx.choice(["deflate", "lzw", "zstd"])
    if ctx.chance(0.3):
        kw["overviews"] = True
    if drv != "COG" and ctx.chance(0.3):
        kw["blocksize"] = 16
    if ctx.chance(0.2) and not (m.data[m.valid] == 111).any():
        kw["null_value"] = 111
    return kw


def f_task(ctx):
    """A block fails while it is computed."""
    base = ctx.chance(0.15)
    fuse = Fuse([], BoomBase if base else Boom)
    m, r = make(ctx, fuse)
    nblocks = int(np.prod(r.data.numblocks))
    fuse.at = {ctx.index % nblocks} if ctx.chance(0.7) else set(ctx.rng.choice(nblocks, size=min(3, nblocks), replace=False).tolist())
    fuse.rearm(True)
    kw = settings(ctx, m)
    cog = kw.get("driver") == "COG"
    sched = "sync" if base else ctx.choice(["sync", "threads"])
    ctx.describe(options=kw, at=sorted(fuse.at), scheduler=sched, base=base)
    ctx.note(sorted(fuse.at), str(kw), sched)
    path = os.path.join(ctx.tmp, "out.tif")
    old = ctx.chance(0.4)
    if old:
        m0 = gen.model(ctx, dtype="float32", crs="EPSG:5070", min_side=2)
        gen.build(ctx, m0).save(path)
    before = snapshot(ctx.tmp)
    err = None
    pool = ThreadPoolExecutor(3)
    race = sched == "threads" and ctx.chance(0.15)
    try:
        with dask.config.set(scheduler=sched, **({"pool": pool} if sched == "threads" else {})):
            r.save(path, **kw)
    except BaseException as e:  # noqa: BLE001
        err = e
    if not race or err is None:
        # dask reports the first error while other tasks of the failed save still run
        pool.shutdown(wait=True)
    if not fuse.fired:
        raise Skip("the fault was not reached")
    ctx.count("faults_fired")
    ctx.interesting()
    ctx.check(err is not None, "task:swallowed", "a failing block did not make the save fail")
    ctx.check(has(err, fuse.exc), "task:other_error", "the caller got another error", got=repr(err))
    ctx.count("errors_reported")
    now = snapshot(ctx.tmp)
    left = set(now) - set(before) - {"out.tif"}
    ctx.check(not left, "task:leftovers", "staging files were left behind", got=sorted(left))
    if cog:
        ctx.count("cog_faults")
        if old:
            ctx.count("old_targets_kept")
            ctx.check(now.get("out.tif") == before["out.tif"], "task:old_target", "a failed staged save destroyed the file that was there")
        else:
            ctx.check("out.tif" not in now, "task:target", "a failed staged save left a target file")
    fuse.rearm(False)
    if race:
        ctx.count("immediate_repeats")
        bad = None
        try:
            check_again(ctx, m, r, path, kw, "task")
        except Exception as e:  # noqa: BLE001
            bad = e
        pool.shutdown(wait=True)
        check_again(ctx, m, r, path, kw, "task")
        if bad is not None:
            ctx.fail("task:again_race", f"a save repeated while tasks of the failed one were still running: {bad!r}"[:600])
    else:
        check_again(ctx, m, r, path, kw, "task")
    left = set(snapshot(ctx.tmp)) - {"out.tif"}
    ctx.check(not left, "task:leftovers2", "staging files were left behind", got=sorted(left))


def f_read(ctx):
    """The file a lazy raster reads from is cut short or damaged."""
    m = gen.model(ctx, dtypes=DT, min_side=20, max_side=60, crs="EPSG:5070", kind="wide")
    src = os.path.join(ctx.tmp, "src", "in.tif")
    os.makedirs(os.path.dirname(src))
    comp = ctx.choice(["deflate", "lzw", None])
    gen.build(ctx, m).save(src, compress=comp, blocksize=16)
    with open(src, "rb") as f:
        good = f.read()
    r = rts.Raster(src)
    if ctx.chance(0.5):
        r = r + 0 if False else r.chunk((1, 8, 9))
    k = ctx.choice(["truncate", "garbage"]) if comp == "deflate" else "truncate"
    if k == "truncate":
        bad = good[: int(len(good) * ctx.rng.uniform(0.3, 0.8))]
        # the directory is at the end of streamed files: keep it readable when it is at the start
    else:
        a = bytearray(good)
        lo = len(a) // 3
        a[lo:] = ctx.rng.bytes(len(a) - lo)
        bad = bytes(a)
    with open(src, "r+b") as f:
        f.seek(0)
        f.write(bad)
        f.truncate(len(bad))
    kw = settings(ctx, m)
    kw.pop("null_value", None)
    out = os.path.join(ctx.tmp, "dst")
    os.makedirs(out)
    path = os.path.join(out, "out.tif")
    ctx.describe(kind=k, compress=comp, options=kw)
    err = None
    try:
        r.save(path, **kw)
    except Exception as e:  # noqa: BLE001
        err = e
    form = saved_form(m)
    if err is None:
        # every block may have been read before the damage took hold: then the file must be right
        with rio.open(path) as f:
            got = f.read()
        ok = gen.arrays_same(got[m.valid], m.data[m.valid])
        ctx.check(ok, "read:silent", "damaged source blocks were saved as if they were data")
        raise Skip("the damage was not reached")
    ctx.count("read_faults")
    ctx.count("faults_fired")
    ctx.count("errors_reported")
    ctx.interesting()
    left = set(os.listdir(out)) - {"out.tif"}
    ctx.check(not left, "read:leftovers", "staging files were left behind", got=sorted(left))
    if kw.get("driver") == "COG":
        ctx.count("cog_faults")
        ctx.check(not os.path.exists(path), "read:target", "a failed staged save left a target file")
    with open(src, "r+b") as f:
        f.write(good)
        f.truncate(len(good))
    r2 = rts.Raster(src)
    check_again(ctx, m, r2, path, kw, "read")


def f_write(ctx):
    """The file system refuses to grow a file: an error, or a complete file."""
    m = gen.model(ctx, dtypes=["float64", "int32", "float32"], shape=(ctx.int(1, 2), ctx.int(40, 90), ctx.int(40, 90)), crs="EPSG:5070", kind="wide")
    r = gen.build(ctx, m)
    kw = settings(ctx, m)
    kw.pop("null_value", None)
    if kw.get("driver") != "COG":
        kw["blocksize"] = 16
    path = os.path.join(ctx.tmp, "out.tif")
    size = m.data.nbytes
    limit = int(size * ctx.rng.uniform(0.05, 0.9)) + 600
    ctx.describe(options=kw, limit=limit, size=size)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    err = None
    with below() as log:
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
        try:
            r.save(path, **kw)
        except Exception as e:  # noqa: BLE001
            err = e
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    if log["raised"]:
        ctx.check(err is not None, "write:swallowed", "the writing library raised, but the save reported success", got=log["raised"])
    form = saved_form(m)
    left = set(os.listdir(ctx.tmp)) - {"out.tif"}
    ctx.check(not left, "write:leftovers", "staging files were left behind", got=sorted(left))
    ctx.count("write_faults")
    ctx.interesting()
    if err is None:
        try:
            with rio.open(path) as f:
                got = f.read()
            ok = gen.arrays_same(got[m.valid], m.data[m.valid])
        except Exception as e:  # noqa: BLE001
            ok, got = False, repr(e)
        # known finding when no writing call returned an error to the package at all
        ctx.check(ok, "write:silent_close" if not log["raised"] and kw.get("driver") != "COG" else "write:silent", "the file could not be written in full, but the save reported success", got=got, options=kw, limit=limit)
    else:
        ctx.count("faults_fired")
        ctx.count("errors_reported")
    check_again(ctx, m, r, path, kw, "write")


def f_tiles(ctx):
    """One tile of save_chunks fails: earlier tiles are complete, the error is reported, a second run completes."""
    fuse = Fuse([])
    m, r = make(ctx, fuse, max_bands=2)
    per_band = ctx.chance(0.4)
    nb, cy, cx = r.data.numblocks
    ntiles = cy * cx * (nb if per_band else 1)
    order = list(np.ndindex(nb, cy, cx)) if per_band else list(np.ndindex(cy, cx))
    k = ctx.index % ntiles
    # in tile order with the sync scheduler, every tile evaluates its own blocks (nb of them, or one)
    fuse.at = {k if per_band else k * nb + ctx.int(0, nb - 1)}
    fuse.rearm(True)
    drv = ctx.choice([None, "COG"])
    kw = {"driver": drv} if drv else {}
    prefix = os.path.join(ctx.tmp, "t")
    ctx.describe(per_band=per_band, fail=k, driver=drv)
    ctx.note(k, per_band, drv)
    err = None
    try:
        r.save_chunks(prefix, per_band=per_band, **kw)
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.check(fuse.fired == 1, "tiles:unreached", "the failing block was never evaluated or several times", fired=fuse.fired, calls=fuse.calls)
    ctx.count("faults_fired")
    ctx.count("tile_faults")
    ctx.interesting()
    ctx.check(err is not None and has(err, Boom), "tiles:swallowed", "a failing tile did not make save_chunks fail", got=repr(err))
    ctx.count("errors_reported")
    yo = np.r_[0, np.cumsum(r.data.chunks[1])]
    xo = np.r_[0, np.cumsum(r.data.chunks[2])]
    full = saved_form(m)

    def tile(idx):
        b, i, j = idx if per_band else (None, *idx)
        name = f"t_b{b}_{i}_{j}.tif" if per_band else f"t_{i}_{j}.tif"
        s = (slice(b, b + 1) if per_band else slice(None), slice(yo[i], yo[i + 1]), slice(xo[j], xo[j + 1]))
        tm = gen.M(m.data[s], m.mask[s], m.nv, m.x[s[2]], m.y[s[1]], m.crs)
        return name, tm, (full[0][s], full[1][s], full[2], full[3])

    failing = k
    names = [tile(i)[0] for i in order]
    files = set(os.listdir(ctx.tmp))
    extra = files - set(names)
    ctx.check(not extra, "tiles:leftovers", "staging files were left behind", got=sorted(extra))
    for i in order[:failing]:
        name, tm, form = tile(i)
        ctx.check(name in files, "tiles:missing", "a tile before the failing one is missing", name=name, got=sorted(files))
        compare_file(ctx, os.path.join(ctx.tmp, name), tm, form, key="tiles:complete")
    if drv == "COG":
        ctx.count("cog_faults")
        ctx.check(names[failing] not in files, "tiles:target", "the failing staged tile left a target file")
    fuse.rearm(False)
    ctx.count("repeated_saves")
    with sut(ctx):
        r.save_chunks(prefix, per_band=per_band, **kw)
    ctx.check(set(os.listdir(ctx.tmp)) == set(names), "tiles:files", got=sorted(os.listdir(ctx.tmp)), want=sorted(names))
    for i in order:
        name, tm, form = tile(i)
        compare_file(ctx, os.path.join(ctx.tmp, name), tm, form, key="tiles:again")


def f_target(ctx):
    """Targets and options that cannot work are refused, and nothing is left behind."""
    fuse = Fuse([])
    m, r = make(ctx, fuse)
    path = os.path.join(ctx.tmp, "out.tif")
    k = ctx.enum(["missing_dir", "missing_dir_cog", "is_dir", "nc", "grib", "hdf", "cog_square", "predictor", "overviews", "copy_fails",
                  "null_both", "tiles_path", "driver"])
    ctx.count("bad_targets")
    ctx.note(k)
    ctx.describe(case=k)
    ctx.interesting()
    keep = os.path.join(ctx.tmp, "keep.nc")
    with open(keep, "w") as f:
        f.write("precious")
    before = snapshot(ctx.tmp)
    allowed = {"out.tif"}
    patch = None
    if k == "missing_dir":
        call = lambda: r.save(os.path.join(ctx.tmp, "no", "out.tif"))  # noqa: E731
    elif k == "missing_dir_cog":
        call = lambda: r.save(os.path.join(ctx.tmp, "no", "out.tif"), driver="COG")  # noqa: E731
    elif k == "is_dir":
        os.makedirs(os.path.join(ctx.tmp, "d.tif"))
        call = lambda: r.save(os.path.join(ctx.tmp, "d.tif"), driver=ctx.choice([None, "COG"]))  # noqa: E731
    elif k in ("nc", "grib", "hdf"):
        call = lambda: r.save(os.path.join(ctx.tmp, "keep." + k))  # noqa: E731
    elif k == "cog_square":
        call = lambda: r.save(path, driver="COG", blocksize=(128, 256))  # noqa: E731
    elif k == "predictor":
        call = lambda: r.save(path, compress="lzw", predictor="diagonal")  # noqa: E731
    elif k == "overviews":
        call = lambda: r.save(path, overviews=[2], overview_resampling="nope")  # noqa: E731
    elif k == "null_both":
        call = lambda: r.save(path, null_value=3, no_data_value=4)  # noqa: E731
    elif k == "tiles_path":
        call = lambda: r.save_chunks(os.path.join(ctx.tmp, "t"), path="x")  # noqa: E731
    elif k == "driver":
        call = lambda: r.save(path, driver="NOSUCH")  # noqa: E731
    else:
        import rasterio.shutil as rs

        orig = rs.copy

        def boom(*a, **kw):
            raise Boom("injected fault in the translation")

        def call():
            rs.copy = boom
            try:
                r.save(path, driver="COG")
            finally:
                rs.copy = orig
    err = None
    try:
        call()
    except Exception as e:  # noqa: BLE001
        err = e
    ctx.check(err is not None, f"target:{k}:accepted", "an impossible save reported success")
    ctx.count("errors_reported")
    now = snapshot(ctx.tmp)
    ctx.check(now.get("keep.nc") == before["keep.nc"], f"target:{k}:clobbered", "a refused save changed a file")
    left = set(now) - set(before) - allowed
    ctx.check(not left, f"target:{k}:leftovers", "files were left behind", got=sorted(left))
    if k in ("copy_fails", "cog_square", "cog_compress"):
        ctx.count("cog_faults")
        ctx.check("out.tif" not in now, f"target:{k}:target", "a failed staged save left a target file")
    check_again(ctx, m, r, path, {"driver": "COG"} if "cog" in k or k == "copy_fails" else {}, "target")


FAMILIES = {
    "task": (f_task, 240, 4000),
    "read": (f_read, 80, 1200),
    "write": (f_write, 80, 1200),
    "tiles": (f_tiles, 80, 1000),
    "target": (f_target, 45, 300),
}
