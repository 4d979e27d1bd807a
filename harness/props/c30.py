"""C30: compiled kernels stay inside their arrays and never use memory nobody wrote.

The sanitizers that exist for this code: numba's bounds checker (every array access of every compiled kernel is checked and raises) and glibc's
malloc perturbation (every freshly allocated block, numba's and numpy's, is filled with a byte pattern, freed blocks with its complement).
The worker processes are started with both switched on (ENV below, see run.py).
"""
import importlib
import json
import os
import subprocess
import sys

import numpy as np

import core

PROP = "C30"
RULE = ("one case = one case of another check's workload (kernels of focal filters, aggregation, remapping, morphology, surfaces, zones, costs, proximity, vectorisation, "
        "rasterization, line lengths, block mapping) executed in a process with numba's bounds checker on and freshly allocated memory filled with a byte pattern; "
        "an out-of-bounds access raises, a value read from unwritten memory disagrees with that check's oracle although it agrees without the pattern. "
        "Non-trivial when the workload's own case is")
REQUIRED = ["sanitized_cases", "kernels_compiled", "oracle_checks", "armed"]
ASSUMPTIONS = ["numba's bounds checker checks every indexed access of compiled code (negative indices wrap first, as in numpy)",
               "blocks served from numpy's small-allocation cache keep their former content instead of the pattern"]

# several byte patterns: huge positive, huge negative, denormal-like
PATTERNS = ("128", "1", "90", "247")


def ENV(worker):
    return {"NUMBA_BOUNDSCHECK": "1", "MALLOC_PERTURB_": PATTERNS[worker % len(PATTERNS)], "RT_SANITIZED": "1"}


def GROUP(fam, i):
    return i  # the byte pattern follows the index


SOURCES = {
    "focal": [("c16", "focal", 5), ("c16", "correlate", 3)],
    "blocks": [("c18", "aggregate", 3), ("c18", "local", 3), ("c18", "big", 1), ("c23", "overlap", 1), ("c23", "blocks", 1)],
    "cells": [("c08", "remap", 2), ("c08", "reclass", 2), ("c17", "morph", 2), ("c17", "regions", 1), ("c02", "reductions", 1)],
    "surface": [("c19", "formula", 4), ("c19", "tpi", 1)],
    "distance": [("c21", "raster", 2), ("c21", "numpy", 2), ("c21", "heap", 2), ("c22", "planar", 3), ("c22", "geo", 1)],
    "vectors": [("c13", "points", 2), ("c13", "polygons", 2), ("c14", "values", 2), ("c14", "mask", 1), ("c20", "raster", 2), ("c20", "vector", 1),
                ("c20", "points", 1), ("c27", "bracket", 1)],
    "grids": [("c24", "mosaic", 2), ("c24", "pad", 1), ("c26", "predict_raster", 1), ("c09", "pieces", 1), ("c25", "aggregate", 1), ("c25", "interpolate", 1)],
}
OOB = "index is out of bounds"  # numba's message; numpy names the index and the axis


def kernels():
    """The compiled functions of the package and how many specialisations each has by now."""
    from numba.core.dispatcher import Dispatcher

    out = {}
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "raster_tools" and mod is not None:
            for v in list(vars(mod).values()):
                v = getattr(v, "__wrapped__", v)
                if isinstance(v, Dispatcher):
                    out[f"{v.py_func.__module__}.{v.py_func.__qualname__}"] = len(v.signatures)
    return out


def setup():
    """The sanitizers must be armed in this process, otherwise nothing is learnt."""
    if os.environ.get("RT_SANITIZED") != "1":
        return
    import numba

    @numba.njit
    def peek(a, i):
        return a[i]

    @numba.njit
    def fresh():
        return np.empty(5000, np.uint8)[100:110].copy()

    want = 255 - int(os.environ["MALLOC_PERTURB_"])
    try:
        peek(np.arange(3), 3)
        raise RuntimeError("numba's bounds checker is not active")
    except IndexError:
        pass
    if not (fresh() == want).all():
        raise RuntimeError("allocations are not filled with the pattern")
    global ARMED
    ARMED = True


ARMED = False
_last = {}


def plain(mod, fam, index, seed, tier):
    """The same case in a process without the sanitizers; returns its status."""
    code = ("import sys, json, os; sys.path[:0] = [%r, %r]\n"
            "import core, importlib, dask\n"
            "dask.config.set(scheduler='sync')\n"
            "m = importlib.import_module('props.' + %r)\n"
            "s = getattr(m, 'setup', None)\n"
            "s and s()\n"
            "r = core.run_case(m, %r, %d, %d, %r)\n"
            "print('RESULT' + json.dumps(r, default=str)); sys.stdout.flush(); os._exit(0)\n"
            % (os.path.join(core.VERIF, "harness"), core.REPO, mod, fam, index, seed, tier))
    env = {k: v for k, v in os.environ.items() if k not in ("NUMBA_BOUNDSCHECK", "MALLOC_PERTURB_", "RT_SANITIZED")}
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=env, timeout=120)
    for line in p.stdout.splitlines():
        if line.startswith("RESULT"):
            return json.loads(line[6:])
    return {"status": "crash", "msg": p.stderr[-1500:]}


def family(group):
    src = [(m, f) for m, f, n in SOURCES[group] for _ in range(n)]

    def run(ctx):
        if not ARMED:
            raise RuntimeError("the sanitizers are not armed in this process")
        ctx.count("armed")
        m, f = src[ctx.index % len(src)]
        # consecutive cases of that family, which the other check does not run itself
        n = src.count((m, f))
        index = 100000 + ctx.index // len(src) * n + src[:ctx.index % len(src)].count((m, f))
        mod = importlib.import_module("props." + m)
        before = sum(kernels().values())
        r = core.run_case(mod, f, index, ctx.seed, ctx.tier)
        after = kernels()
        ctx.count("kernels_compiled", max(0, sum(after.values()) - before))
        ctx.count("sanitized_cases")
        ctx.count("workload:" + m + "." + f)
        ctx.count("oracle_checks", r["counters"].get("oracle_checks", 0))
        ctx.note(m, f, r["sig"])
        ctx.describe(workload=f"{m}.{f}[{index}]", case=r["desc"][:600])
        ctx.interesting(r["nontrivial"])
        if r["status"] in ("ok", "skip"):
            if r["status"] == "skip":
                ctx.count("workload_skips")
            return
        text = r.get("msg", "") + json.dumps(r.get("details") or {}, default=str)
        if OOB in text:
            ctx.fail("out_of_bounds:" + group, f"a kernel accessed an element outside of its array in {m}.{f}[{index}]", report=text[-2500:])
        p = plain(m, f, index, ctx.seed, ctx.tier)
        if p["status"] in ("ok", "skip"):
            ctx.fail("unwritten_memory:" + group, f"{m}.{f}[{index}] gives other results when fresh memory holds a pattern: {r.get('key')} {r.get('msg', '')[:400]}",
                     report=text[-2500:])
        # it fails anyway: another property's business
        ctx.count("fails_without_sanitizers")
    return run


COUNTS = {"focal": (72, 2400), "blocks": (81, 2700), "cells": (64, 1600), "surface": (45, 1500), "distance": (80, 2400), "vectors": (72, 2400), "grids": (49, 1400)}
FAMILIES = {g: (family(g), *COUNTS[g]) for g in SOURCES}
