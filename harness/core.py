"""Case runner shared by all checks.

A property module (harness/props/cXX.py) declares

    PROP      property id
    RULE      text: how cases are made / what makes one non-trivial
    FAMILIES  {name: (function, quick_count, thorough_count)}
    REQUIRED  counters that must be non-zero for a verdict (else inconclusive)

A family function receives a Ctx; it builds an input with ctx.rng, runs the real
code and lets monitors judge what was observed with ctx.check()/ctx.fail().
Every case is a pure function of (VERIF_SEED, property, family, index), so a
violation is replayed by re-running that one case.
"""
import contextlib
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RT_REPO", "/repo")


class Violation(Exception):
    def __init__(self, key, msg, details=None):
        super().__init__(f"[{key}] {msg}")
        self.key = key
        self.msg = msg
        self.details = details


class Skip(Exception):
    """The generated case is outside the property (counted, not judged)."""


def stable_hash(*parts):
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(str(p).encode())
        h.update(b"\0")
    return int.from_bytes(h.digest(), "big")


class Ctx:
    def __init__(self, prop, family, index, seed, tier):
        self.prop, self.family, self.index = prop, family, index
        self.seed, self.tier = seed, tier
        s = stable_hash(seed, prop, family, index)
        self.rng = np.random.default_rng(s)
        self.pyrng = random.Random(s)
        self.counters = {}
        self.sig = []
        self.nontrivial = False
        self.desc = []
        self._tmp = None
        self._sut = 0

    # -- randomness helpers
    def choice(self, seq, p=None):
        seq = list(seq)
        return seq[int(self.rng.choice(len(seq), p=p))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def int(self, lo, hi):
        """inclusive bounds"""
        return int(self.rng.integers(lo, hi + 1))

    def enum(self, seq):
        """Cycle through seq with the case index (systematic coverage)."""
        seq = list(seq)
        return seq[self.index % len(seq)]

    # -- observation bookkeeping
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def note(self, *parts):
        """Adds to the signature of the case (its identity for 'distinct')."""
        for p in parts:
            if isinstance(p, np.ndarray):
                p = hashlib.blake2b(
                    np.ascontiguousarray(p).tobytes(), digest_size=8
                ).hexdigest() + str(p.shape)
            self.sig.append(str(p))

    def describe(self, **kw):
        for k, v in kw.items():
            self.desc.append(f"{k}={v!r}" if not isinstance(v, np.ndarray) else f"{k}={v.tolist()!r}")

    def interesting(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    # -- judging
    def check(self, cond, key, msg="", **details):
        self.count("oracle_checks")
        if not cond:
            self.fail(key, msg, **details)

    def fail(self, key, msg="", **details):
        raise Violation(key, msg, {k: short(v) for k, v in details.items()})

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="rtcheck_")
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)


def short(v, n=1500):
    s = np.array2string(v, threshold=400) if isinstance(v, np.ndarray) else repr(v)
    return s if len(s) <= n else s[:n] + "..."


# numba strips the traceback of compile errors, and task errors surface in the
# scheduler: an exception out of these libraries comes from evaluating a result.
EVALUATORS = ("dask", "xarray", "numba", "rasterio", "rioxarray", "odc", "dask_geopandas")


def through_repo(exc):
    """Does the traceback (or its causes) pass through the code under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if "/raster_tools/" in fn and "/harness/" not in fn:
                return True
            if any(f"/site-packages/{lib}/" in fn for lib in EVALUATORS):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def run_case(mod, family, index, seed, tier):
    fn = mod.FAMILIES[family][0]
    ctx = Ctx(mod.PROP, family, index, seed, tier)
    res = {"family": family, "index": index, "status": "ok"}
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(ctx)
    except Skip as e:
        res["status"] = "skip"
        res["msg"] = str(e)
    except Violation as v:
        res.update(status="violation", key=v.key, msg=v.msg, details=v.details)
    except Exception as e:  # noqa: BLE001
        tb = traceback.format_exc()
        key = f"exception:{family}:{type(e).__name__}"
        if through_repo(e) or getattr(ctx, "sut_active", False):
            res.update(status="violation", key=key, msg=f"the code under test raised {e!r}"[:800], details={"traceback": tb[-3000:]})
        else:
            res.update(status="error", key=key, msg=tb[-4000:])
    finally:
        ctx.cleanup()
    res["wall"] = time.time() - t0
    res["counters"] = ctx.counters
    res["sig"] = f"{stable_hash(family, *ctx.sig):016x}"
    res["nontrivial"] = ctx.nontrivial
    res["desc"] = "; ".join(ctx.desc)[:1500]
    return res


@contextlib.contextmanager
def sut(ctx):
    """Marks a region where any exception is attributed to the code under test
    (used where its frames may be absent from the traceback)."""
    prev = getattr(ctx, "sut_active", False)
    ctx.sut_active = True
    yield
    ctx.sut_active = prev


def expect_raises(ctx, key, fn, *types, msg=""):
    """The call must be refused with an exception (an error is never swallowed)."""
    try:
        fn()
    except types or (Exception,):
        ctx.count("oracle_checks")
        return
    ctx.fail(key, msg or "expected an error, none was raised")
