"""A batch script computes what the API calls it names compute."""
import os

import numpy as np
import raster_tools as rts
from raster_tools.batch import parse_batch_script

import gen
from core import Skip, expect_raises, sut

PROP = "C28"
RULE = ("one case = one generated script run through the parser, each of its named rasters compared with the same API calls made directly; "
        "non-trivial when the script has at least two commands")
REQUIRED = ["scripts", "rasters_compared", "files_compared", "malformed_reported", "cmd_ARITHMETIC", "cmd_COMPOSITE", "cmd_EXTRACTBAND",
            "cmd_NULLTOVALUE", "cmd_OPENRASTER", "cmd_REMAP", "cmd_SAVEFUNCTIONRASTER", "cmd_SETNULL"]

OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "%": lambda a, b: a % b,
       "**": lambda a, b: a ** b}
ESRI = {"+": "esriRasterPlus", "-": "esriRasterMinus", "*": "esriRasterMultiply", "/": "esriRasterDivide", "%": "esriRasterMode", "**": "esriRasterPower"}


def case_mix(ctx, s):
    k = ctx.choice(["upper", "lower", "mixed", "title"])
    if k == "upper":
        return s
    if k == "lower":
        return s.lower()
    if k == "title":
        return s.title()
    return "".join(c.lower() if ctx.chance(0.5) else c for c in s)


def pad(ctx, s):
    return " " * ctx.choice([0, 0, 1, 3]) + s + ctx.choice(["", "", " ", "\t"])


def num(ctx, v):
    return repr(float(v)) if ctx.chance(0.5) else (repr(int(v)) if float(v).is_integer() else repr(float(v)))


class Script:
    def __init__(self, ctx, models, paths):
        self.ctx, self.lines, self.api, self.env, self.files = ctx, [], {}, {}, []
        self.models, self.paths = models, paths
        self.n = 0

    def name(self):
        self.n += 1
        return self.ctx.choice(["r", "Out", "tmp_", "x y"]) + str(self.n)

    def emit(self, name, cmd, args):
        c = self.ctx
        text = pad(c, name) + "=" + pad(c, f"{case_mix(c, cmd)}({args})")
        if c.chance(0.25):
            text += "  # " + c.choice(["a comment", "=", "x = ADD(a;b)", "#"])
        self.lines.append(text)
        c.count("cmd_" + cmd)
        for _ in range(c.choice([0, 0, 1, 2])):
            self.lines.append(c.choice(["", "   ", "# comment", "#r1 = OPENRASTER(nothing.tif)", "\t"]))

    def ref(self, want=None):
        """A raster argument: an earlier name or a file (relative or absolute)."""
        c = self.ctx
        if self.env and c.chance(0.7):
            k = c.choice(sorted(self.env))
            return k, self.env[k]
        i = c.int(0, len(self.paths) - 1)
        p = self.paths[i]
        return (os.path.basename(p) if c.chance(0.5) else p), rts.Raster(p)

    def command(self):
        c = self.ctx
        cmd = c.choice(["ARITHMETIC", "COMPOSITE", "EXTRACTBAND", "NULLTOVALUE", "OPENRASTER", "REMAP", "SETNULL", "SAVEFUNCTIONRASTER"],
                       p=[0.25, 0.1, 0.1, 0.12, 0.13, 0.12, 0.1, 0.08])
        a, ra = self.ref()
        out = self.name() if not (self.env and c.chance(0.15)) else c.choice(sorted(self.env))  # names can be reassigned
        if cmd == "OPENRASTER":
            i = c.int(0, len(self.paths) - 1)
            a, res = os.path.basename(self.paths[i]), rts.Raster(self.paths[i])
            args = pad(c, a) if False else a
        elif cmd == "ARITHMETIC":
            op = c.choice(list(OPS), p=[0.25, 0.25, 0.2, 0.15, 0.1, 0.05])
            opn = ESRI[op] if c.chance(0.5) else op
            k = c.choice(["rr", "rs", "sr"], p=[0.5, 0.3, 0.2]) if op != "**" else "rs"
            s = float(c.choice([2, 3, 0.5, -4, 10])) if op != "**" else 2.0
            if k == "rr":
                b, rb = self.ref()
                if rb.nbands != ra.nbands and 1 not in (ra.nbands, rb.nbands):
                    return
                args, res = f"{a};{b};{opn}", (lambda: OPS[op](ra, rb))
            elif k == "rs":
                args, res = f"{a};{num(c, s)};{opn}", (lambda: OPS[op](ra, s))
            else:
                args, res = f"{num(c, s)};{a};{opn}", (lambda: OPS[op](s, ra))
            try:
                res = res()
            except Exception:
                return  # not a valid API call either
        elif cmd == "COMPOSITE":
            refs = [(a, ra)] + [self.ref() for _ in range(c.int(1, 2))]
            args, res = ";".join(x for x, _ in refs), rts.stack_bands([r for _, r in refs])
            if res.nbands > 8:
                return
        elif cmd == "EXTRACTBAND":
            bands = [c.int(1, ra.nbands) for _ in range(c.int(1, 3))]
            args, res = ";".join([a, *map(str, bands)]), ra.get_bands(bands)
        elif cmd == "NULLTOVALUE":
            v = float(c.choice([0, 5, 77, 12.5])) if ra.dtype.kind == "f" else float(c.int(0, 90))
            args, res = f"{a};{num(c, v)}", ra.replace_null(v)
        elif cmd == "REMAP":
            maps = []
            for _ in range(c.int(1, 3)):
                lo = float(c.int(-10, 60))
                maps.append((lo, lo + float(c.choice([1, 5, 20.5])), float(c.int(0, 99))))
            args = f"{a};" + ",".join(":".join(num(c, v) for v in t) for t in maps)
            res = ra.remap_range(maps)
        elif cmd == "SETNULL":
            rng = []
            for _ in range(c.int(1, 2)):
                lo = c.int(0, 60)
                rng.append((lo, lo + c.int(1, 20)))
            args = ";".join([a, *(f"{num(c, lo)}-{num(c, hi)}" for lo, hi in rng)])
            res = ra if ra.null_value is not None else ra.set_null_value(rts.masking.get_default_null_value(ra.dtype))
            nv = res.null_value
            res = res.remap_range([(lo, hi, nv) for lo, hi in rng]).set_null_value(nv)
        else:
            outdir = os.path.join(c.tmp, "out")
            os.makedirs(outdir, exist_ok=True)
            fn = f"f{self.n}"
            nv = 211.0
            extra = c.choice([[], [num(c, nv)], [num(c, nv), "16"], [num(c, nv), "32", "16"]], p=[0.1, 0.4, 0.2, 0.3])
            args = ";".join([a, fn, outdir, "TIFF", *extra])
            ref = os.path.join(c.tmp, f"ref{self.n}.tif")
            res = ra.save(ref, null_value=nv if extra else 0)
            self.files.append((os.path.join(outdir, fn + ".tif"), ref, extra[1:], ra.nbands))
        self.env[out] = res
        self.emit(out, cmd, args)
        self.last = out


def same(ctx, got, want, key):
    a, b = gen.Obs(got), gen.Obs(want)
    ctx.count("rasters_compared")
    ctx.check(a.data.shape == b.data.shape, key + ":shape", got=a.data.shape, want=b.data.shape)
    ctx.check(a.data.dtype == b.data.dtype, key + ":dtype", got=a.data.dtype, want=b.data.dtype)
    ctx.check(gen.same_value(a.null, b.null), key + ":null_value", got=a.null, want=b.null)
    ctx.check(np.array_equal(a.mask, b.mask), key + ":mask", got=a.mask, want=b.mask)
    v = ~b.mask
    ctx.check(gen.arrays_same(a.data[v], b.data[v]), key + ":values", got=a.data, want=b.data)
    ctx.check(np.array_equal(a.x, b.x) and np.array_equal(a.y, b.y) and gen.crs_same(a.crs, b.crs), key + ":grid")


def inputs(ctx):
    grid = None
    shape = (ctx.int(2, 8), ctx.int(2, 8))
    models, paths = [], []
    for i in range(ctx.int(1, 3)):
        m = gen.model(ctx, dtypes=["uint8", "int16", "int32", "float32", "float64"], shape=(ctx.choice([1, 1, 2, 3]), *shape), grid=grid, crs="EPSG:5070",
                      kind=ctx.choice(["small", "ramp", "cat"]))
        grid = (m.x, m.y)
        p = os.path.join(ctx.tmp, f"in{i}.tif")
        gen.build(ctx, m).save(p)
        models.append(m)
        paths.append(p)
    return models, paths


def f_script(ctx):
    models, paths = inputs(ctx)
    s = Script(ctx, models, paths)
    s.lines += ctx.choice([[], ["# header"], ["", "  "]])
    for _ in range(ctx.int(1, 6)):
        s.command()
    if not s.env:
        raise Skip("no command")
    text = "\n".join(s.lines) + ctx.choice(["", "\n", "\n\n"])
    ctx.note(text.replace(ctx.tmp, ""))
    ctx.describe(script=text.replace(ctx.tmp, "<tmp>"))
    path = os.path.join(ctx.tmp, "script.bch")
    with open(path, "w") as f:
        f.write(text)
    ctx.count("scripts")
    ctx.interesting(len(s.env) > 1)
    with sut(ctx):
        state = parse_batch_script(path)
    ctx.check(set(state.rasters) == set(s.env), "script:names", "not the rasters the script names", got=sorted(state.rasters), want=sorted(s.env))
    for k, want in s.env.items():
        same(ctx, state.rasters[k], want, "script")
    same(ctx, rts.Raster(path), s.env[s.last], "script:final")
    for got, ref, block, nb in s.files:
        ctx.count("files_compared")
        ctx.check(os.path.exists(got), "script:file", "the output file was not written", path=os.path.basename(got))
        same(ctx, rts.Raster(got), rts.Raster(ref), "script:file")
        if block:
            import rasterio as rio
            with rio.open(got) as d:
                w = int(block[0])
                h = int(block[1]) if len(block) > 1 else w
                ctx.check(d.block_shapes[0] == (h, w), "script:blocks", "not the requested tiling", got=d.block_shapes, want=(h, w))


def f_numpy(ctx):
    """The end result of a short script against plain numpy."""
    models, paths = inputs(ctx)
    m = models[0]
    op = ctx.choice(["+", "-", "*"])
    s = float(ctx.int(2, 9))
    side = ctx.choice(["left", "right"])
    a = f"in0.tif;{num(ctx, s)};{op}" if side == "left" else f"{num(ctx, s)};in0.tif;{ESRI[op]}"
    path = os.path.join(ctx.tmp, "s.bch")
    with open(path, "w") as f:
        f.write(f"q = {case_mix(ctx, 'ARITHMETIC')}({a})\n")
    ctx.count("scripts")
    ctx.count("cmd_ARITHMETIC")
    ctx.describe(expr=a)
    with sut(ctx):
        o = gen.Obs(rts.Raster(path))
    d = m.data.astype("f8")
    want = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op](*((d, s) if side == "left" else (s, d)))
    gen.check_cells(ctx, o, want, m.mask, key="numpy", rtol=1e-6)
    ctx.count("rasters_compared")
    ctx.interesting(m.mask.any())


BAD = [
    "a = NOPE(in0.tif)", "a = OPENRASTER(missing.tif)", "a OPENRASTER(in0.tif)", "a = OPENRASTER in0.tif", "a = ARITHMETIC(in0.tif;2;?)",
    "a = ARITHMETIC(in0.tif;2)", "a = REMAP(in0.tif;1:2)", "a = REMAP(in0.tif;5:2:1)", "a = REMAP(in0.tif;a:b:c)", "a = REMAP(in0.tif)",
    "a = REMAP(in0.tif;0:1:2;3:4:5)", "a = COMPOSITE(in0.tif)", "a = EXTRACTBAND(in0.tif;x)", "a = EXTRACTBAND(in0.tif;99)", "a = EXTRACTBAND(in0.tif;1.5)",
    "a = NULLTOVALUE(in0.tif;1;2)", "a = NULLTOVALUE(in0.tif;q)", "a = NULLTOVALUE(in0.tif)", "a = SETNULL(in0.tif;3-q)", "a = SETNULL(in0.tif;3)",
    "a = SAVEFUNCTIONRASTER(in0.tif;x)", "a = SAVEFUNCTIONRASTER(in0.tif;x;TMP;DOC)", "a = SAVEFUNCTIONRASTER(in0.tif;x;TMP;TIFF;1;16;16;7)",
    "a = ARITHMETIC(nosuch;2;+)", "a = (in0.tif)", "a = ARITHMETIC(1;2;+)", "a = ARITHMETIC(in0.tif;in0.tif;plus)", "a = OPENRASTER()", "a = OPENRASTER(in0.tif", "= = =", "garbage",
]


def f_malformed(ctx):
    """A malformed line anywhere is an error; nothing after it is run."""
    models, paths = inputs(ctx)
    bad = ctx.enum(BAD).replace("TMP", ctx.tmp)
    good = ["g1 = OPENRASTER(in0.tif)", "# note", "", "g2 = NULLTOVALUE(in0.tif;3)"]
    k = ctx.int(0, len(good))
    later = os.path.join(ctx.tmp, "later.tif")
    lines = good[:k] + [bad] + good[k:] + [f"z = SAVEFUNCTIONRASTER(in0.tif;later;{ctx.tmp};TIFF;99)"]
    path = os.path.join(ctx.tmp, "bad.bch")
    with open(path, "w") as f:
        f.write("\n".join(lines))
    ctx.note(bad, k)
    ctx.describe(line=bad)
    ctx.count("scripts")
    expect_raises(ctx, "malformed:accepted", lambda: parse_batch_script(path), msg=f"malformed line accepted: {bad}")
    ctx.count("malformed_reported")
    ctx.check(not os.path.exists(later), "malformed:continued", "lines after the malformed one were run")
    ctx.interesting()


FAMILIES = {
    "script": (f_script, 220, 3000),
    "numpy": (f_numpy, 40, 400),
    "malformed": (f_malformed, 2 * len(BAD), 6 * len(BAD)),
}
