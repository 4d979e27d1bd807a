"""C04: results do not depend on chunking, scheduler or task order."""
import random
import threading
import time
from collections.abc import Mapping

import dask
import numpy as np
from dask._task_spec import convert_legacy_graph

import gen
import ops
from core import Skip, sut

PROP = "C04"
RULE = ("one case = one public operation (harness/ops.py) evaluated on the same cells under a reference configuration (one chunk, synchronous) and under others: "
        "other chunk layouts, dask's synchronous, threaded and process schedulers, random topological task orders, several worker threads with random delays "
        "before tasks, repeated evaluation, and joint evaluation with other results; everything observable of the outcomes is compared. "
        "Non-trivial when at least two configurations were compared on more than one chunk")
REQUIRED = ["layouts_compared", "random_orders", "distinct_orders", "threaded_delays", "joint_evaluations", "repeats", "tasks_run", "max_concurrency_seen"]
NAMES = sorted(n for n, o in ops.OPS.items())


def as_tasks(dsk):
    if not isinstance(dsk, Mapping):
        dsk = dsk.__dask_graph__()
    return convert_legacy_graph(dict(dsk))


class Orderly:
    """A dask scheduler that runs tasks in a random topological order, one at a
    time or in several threads with random delays, and records what it did."""

    def __init__(self, seed, workers=1, delay=0.0):
        self.rng = random.Random(seed)
        self.workers, self.delay = workers, delay
        self.order, self.peak, self.ntasks = [], 0, 0

    def __call__(self, dsk, keys, **kw):
        dsk = as_tasks(dsk)
        deps = {k: set(t.dependencies) & set(dsk) for k, t in dsk.items()}
        users = {k: [] for k in dsk}
        for k, ds in deps.items():
            for d in ds:
                users[d].append(k)
        left = {k: len(ds) for k, ds in deps.items()}
        ready = [k for k, n in left.items() if n == 0]
        ready.sort(key=str)
        done = {}
        index = {k: i for i, k in enumerate(sorted(dsk, key=str))}
        self.ntasks += len(dsk)
        lock = threading.Condition()
        state = {"running": 0, "error": None}

        def step():
            with lock:
                while True:
                    if state["error"] is not None or len(done) == len(dsk):
                        lock.notify_all()
                        return False
                    if ready:
                        break
                    lock.wait(5)
                k = ready.pop(self.rng.randrange(len(ready)))
                state["running"] += 1
                self.peak = max(self.peak, state["running"])
                pause = self.rng.random() * self.delay
                self.order.append(index[k])
            try:
                if pause:
                    time.sleep(pause)
                t = dsk[k]
                val = t({d: done[d] for d in t.dependencies if d in done})
            except BaseException as e:  # noqa: BLE001
                with lock:
                    state["error"] = e
                    state["running"] -= 1
                    lock.notify_all()
                return False
            with lock:
                done[k] = val
                state["running"] -= 1
                for u in users[k]:
                    left[u] -= 1
                    if left[u] == 0:
                        ready.append(u)
                lock.notify_all()
            return True

        def loop():
            while step():
                pass

        if self.workers == 1:
            loop()
        else:
            ths = [threading.Thread(target=loop, daemon=True) for _ in range(self.workers)]
            for t in ths:
                t.start()
            for t in ths:
                t.join()
        if state["error"] is not None:
            raise state["error"]

        def pick(x):
            return [pick(i) for i in x] if isinstance(x, list) else done[x]

        return pick(keys)


def tune(o, t):
    """Comparison tolerance: results that add up cells of several chunks may differ in the last bits."""
    r = o.rtol
    if t.dtype == np.dtype("float32") and r:
        r = max(r, 1e-4)
    return r


def prepare(ctx, o, **over):
    ms = ops.inputs(ctx, o, **over)
    if ms is None:
        raise Skip("no input fits")
    t = ops.Meta.model(ms[0])
    state = ctx.rng.bit_generator.state
    ctx.describe(op=o.name)

    def run(rs):
        # the same argument values whatever happened before
        ctx.rng.bit_generator.state = state
        args, call = o.f(ctx, t)
        with sut(ctx):
            return args, call(rs, args)

    return ms, t, run


def compare(ctx, o, t, ref, got, key, **kw):
    d = ops.diff(ref, got, tune(o, t))
    ctx.check(d is None, f"{key}:{o.name}", d or "", **kw)


def whole(m):
    return tuple((n,) for n in m.shape[1:])


def relabel(seen):
    """Number the regions of every band in order of first appearance."""
    for _, o in seen.items:
        for b in range(o.data.shape[0]):
            v = ~o.mask[b] & (o.data[b] != 0)
            _, first, inv = np.unique(o.data[b][v], return_index=True, return_inverse=True)
            rank = np.empty(first.size, int)
            rank[np.argsort(first)] = np.arange(first.size)
            o.data[b][v] = rank[inv] + 1


def f_layout(ctx):
    """Chunk layouts."""
    o = ops.OPS[ctx.enum([n for n in NAMES if ops.OPS[n].inv])]
    ms, t, run = prepare(ctx, o)
    rs0 = [gen.build(ctx, m, chunks=whole(m)) for m in ms]
    args, out = run(rs0)
    ctx.describe(args=args)
    with sut(ctx):
        ref = ops.Seen(out, o)
    done = {whole(ms[0])}
    for style in ctx.rng.permutation(["ones", "small", "even", "rand"])[:2]:
        chunks = ops.chunking(ctx, o, ms[0].shape, str(style))
        rs = [gen.build(ctx, m, chunks=chunks if ctx.chance(0.6) else ops.chunking(ctx, o, m.shape)) for m in ms]
        lay = [r.data.chunks[1:] for r in rs]
        if lay[0] in done and o.n == 1:
            continue
        done.add(lay[0])
        ctx.count("layouts_compared")
        ctx.interesting(any(len(c) > 1 for c in lay[0]))
        _, out = run(rs)
        with sut(ctx):
            got = ops.Seen(out, o)
        if o.name == "regions":  # labels are arbitrary names
            relabel(ref), relabel(got)
        compare(ctx, o, t, ref, got, "layout", layouts=lay)


def some_layout(ctx, o, ms):
    return [gen.build(ctx, m, chunks=ops.chunking(ctx, o, m.shape, ctx.choice(["small", "even", "rand"]))) for m in ms]


def f_order(ctx):
    """Task orders, threads, delays, repeats."""
    o = ops.OPS[ctx.enum(NAMES)]
    ms, t, run = prepare(ctx, o, max_side=9)
    rs = some_layout(ctx, o, ms)
    args, out = run(rs)
    ctx.describe(args=args)
    with sut(ctx):
        ref = ops.Seen(out, o)
        again = ops.Seen(out, o)
    ctx.interesting(rs[0].data.npartitions > 1)
    ctx.count("repeats")
    compare(ctx, o, t, ref, again, "repeat")
    orders = set()
    for _ in range(2):
        s = Orderly(ctx.int(0, 10**9))
        with sut(ctx), dask.config.set(scheduler=s):
            got = ops.Seen(out, o)
        orders.add(tuple(s.order))
        ctx.count("tasks_run", s.ntasks)
        ctx.count("random_orders")
        compare(ctx, o, t, ref, got, "order")
    ctx.count("distinct_orders", len(orders))
    s = Orderly(ctx.int(0, 10**9), workers=ctx.choice([3, 8]), delay=ctx.choice([0.0005, 0.003]))
    with sut(ctx), dask.config.set(scheduler=s):
        got = ops.Seen(out, o)
    ctx.count("threaded_delays")
    ctx.count("tasks_run", s.ntasks)
    ctx.count("max_concurrency_seen", s.peak > 2)
    compare(ctx, o, t, ref, got, "threads")
    with sut(ctx), dask.config.set(scheduler="threads", num_workers=ctx.choice([1, 4, 16])):
        got = ops.Seen(out, o)
    compare(ctx, o, t, ref, got, "dask_threads")


def f_process(ctx):
    """Tasks evaluated in other processes (everything is serialised)."""
    names = [n for n in NAMES if ops.OPS[n].lazy and not ops.OPS[n].frame and n not in ("load",)]
    o = ops.OPS[ctx.enum(names)]
    ms, t, run = prepare(ctx, o, max_side=8)
    rs = some_layout(ctx, o, ms)
    args, out = run(rs)
    ctx.describe(args=args)
    with sut(ctx):
        ref = ops.Seen(out, o)
        import pickle

        import cloudpickle

        def ship(dsk, keys, **kw):
            # what a process scheduler or a cluster does to every task and result
            def one(x):
                return pickle.loads(cloudpickle.dumps(x))

            d = as_tasks(dsk)
            ctx.count("tasks_shipped", len(d))
            d = {k: one(v) for k, v in d.items()}
            return dask.get(d, keys, **kw)

        with dask.config.set(scheduler=ship):
            got = ops.Seen(out, o)
    ctx.interesting()
    compare(ctx, o, t, ref, got, "process")


def f_joint(ctx):
    """Results evaluated together (or one built on the other's input) do not get mixed up."""
    k = ctx.int(2, 3)
    names = [n for n in NAMES if ops.OPS[n].lazy and not ops.OPS[n].frame and ops.OPS[n].group != "scalar"]
    first = ctx.enum(names)
    os_ = [ops.OPS[first]]
    # the same operation with other arguments, or another one, on the same raster
    need = dict(os_[0].need)
    ms, t, run = prepare(ctx, os_[0], max_side=8)
    rs = some_layout(ctx, os_[0], ms)
    outs = []
    args, out = run(rs)
    outs.append((os_[0], out, args))
    for _ in range(k):
        if ctx.chance(0.7):
            o = os_[0]
        else:
            cand = [ops.OPS[n] for n in names if ops.OPS[n].n == 1 and ops.OPS[n].pre(t) and "nulls" not in ops.OPS[n].need and not ops.OPS[n].max_blocks and n != "mosaic"]
            o = ctx.choice(cand)
        args, call = o.f(ctx, t)
        use = rs
        if o is os_[0] and ctx.chance(0.5):
            # the same arguments on other cells
            m2 = [m.copy() for m in ms]
            for m in m2:
                m.data = np.where(m.mask, m.data, m.data[..., ::-1].copy() if not m.mask.any() else m.data)
            use = [gen.build(ctx, m, chunks=r.data.chunks[1:]) for m, r in zip(m2, rs)]
        with sut(ctx):
            outs.append((o, call(use, args), args))
    ctx.describe(joint=[(o.name, a if not any(hasattr(v, "geometry") for v in a.values()) else "frame") for o, _, a in outs])
    flat = [(i, x) for i, (_, out, _) in enumerate(outs) for x in ops.flatten(out) if isinstance(x, ops.Raster)]
    with sut(ctx):
        alone = [dask.compute(x.data, x.mask) for _, x in flat]
        arrays = [a for _, x in flat for a in (x.data, x.mask)]
        perm = ctx.rng.permutation(len(arrays))
        s = Orderly(ctx.int(0, 10**9), workers=ctx.choice([1, 4]))
        with dask.config.set(scheduler=s):
            got = dask.compute(*[arrays[i] for i in perm])
    back = [None] * len(arrays)
    for i, a in zip(perm, got):
        back[i] = a
    ctx.count("joint_evaluations")
    ctx.interesting()
    for j, (i, x) in enumerate(flat):
        o = outs[i][0]
        d, m = alone[j]
        ctx.check(np.array_equal(m, back[2 * j + 1]), f"joint:{o.name}:mask", "the mask differs when evaluated together with other results", with_=[q[0].name for q in outs])
        ctx.check(gen.arrays_same(d, back[2 * j]) if o.name != "random" or True else True, f"joint:{o.name}:data", "the data differ when evaluated together with other results",
                  got=back[2 * j], want=d, with_=[q[0].name for q in outs])


def f_kernel_reproject(ctx):
    """Interpolating reprojection of a chunked raster: see known_findings.json."""
    a = (np.arange(70) ** 2 % 97).reshape(1, 7, 10).astype("float32")
    m = gen.M(a, np.zeros(a.shape, bool), None, 100.25 + 0.5 * np.arange(10), 50.25 - 0.5 * np.arange(7), "EPSG:5070")
    one = gen.Obs(gen.build(ctx, m, chunks=((7,), (10,))).reproject(resolution=0.25, resample_method="bilinear"))
    two = gen.Obs(gen.build(ctx, m, chunks=((7,), (5, 5))).reproject(resolution=0.25, resample_method="bilinear"))
    bad = np.argwhere((one.data != two.data).any(axis=(0, 1)))[:, 0]
    # the columns whose bilinear support crosses the chunk border at x = 5 cells
    ctx.check(not (set(bad.tolist()) - {9, 10}), "layout:reproject_kernel_elsewhere", "interpolated cells away from the chunk border differ", columns=bad)
    ctx.check(bad.size == 0, "layout:reproject_kernel", "bilinear reprojection ignores the source cells beyond a chunk border", columns=bad, one=one.data[0, 0], two=two.data[0, 0])


NINV = len([n for n in NAMES if ops.OPS[n].inv])
FAMILIES = {
    "layout": (f_layout, 4 * NINV, 80 * NINV),
    "order": (f_order, 2 * len(NAMES), 30 * len(NAMES)),
    "joint": (f_joint, 1 * len(NAMES), 40 * len(NAMES)),
    "process": (f_process, 24, 600),
    "kernel_reproject": (f_kernel_reproject, 1, 1),
}
