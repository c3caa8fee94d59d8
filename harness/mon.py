"""The monitoring core: case generation, online oracles, verdicts.

A check module defines

    PROPERTY   the id
    FAMILIES   {name: (fn, quick_n, thorough_n)}
    REQUIRED   names of event counters that must be non-zero at the end; a run
               in which the deciding monitor saw nothing is inconclusive
    RULE       how cases are made and what makes one non-trivial

fn(ctx, rng, i) is deterministic in (property, family, seed, i); it drives the
real code and reports what its monitors observed on ctx.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

import numpy as np


class Inconclusive(Exception):
    """the machinery (not the code under test) cannot decide this case"""


class CaseTimeout(BaseException):
    pass


class StopCase(Exception):
    """a violation was recorded and the rest of the case makes no sense"""


MAX_KEEP = 5


def jsonable(obj, depth=0):
    if depth > 6:
        return repr(obj)[:200]
    if isinstance(obj, dict):
        return {str(k): jsonable(v, depth+1) for k, v in list(obj.items())[:60]}
    if isinstance(obj, (list, tuple, set)):
        return [jsonable(v, depth+1) for v in list(obj)[:60]]
    if isinstance(obj, np.ndarray):
        if obj.size <= 60:
            if obj.dtype.names:
                return repr(obj)[:800]
            return jsonable(obj.tolist(), depth+1)
        return "array%s %s" % (obj.shape, obj.dtype)
    if isinstance(obj, (bool, np.bool_)):
        return bool(obj)
    if isinstance(obj, (int, np.integer)):
        return int(obj)
    if isinstance(obj, (float, np.floating)):
        return float(obj) if np.isfinite(obj) else repr(float(obj))
    if obj is None or isinstance(obj, str):
        return obj
    return repr(obj)[:300]


def case_rng(prop, family, seed, index):
    h = hashlib.sha256(
        ("%s|%s|%d|%d" % (prop, family, seed, index)).encode()
    ).digest()
    return np.random.RandomState(np.frombuffer(h[:32], dtype='u4'))


class Ctx:
    def __init__(self, prop, family="", tier="quick"):
        self.prop = prop
        self.family = family
        self.tier = tier
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.index = None
        self.info = {}

    # ---- what the case was
    def describe(self, **kw):
        self.info.update(kw)

    def nontrivial(self, *sig):
        self.sigs.add((self.family,) + tuple(str(s) for s in sig))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def count(self, name, n=1):
        self.counters[name] += int(n)

    # ---- oracles
    def violate(self, mechanism, **detail):
        self.counters["violations"] += 1
        self.violations.append(dict(
            mechanism=mechanism, family=self.family, index=self.index,
            detail=jsonable(detail), case=jsonable(self.info),
        ))

    def check(self, cond, mechanism, **detail):
        self.counters["oracle_evaluations"] += 1
        if not bool(cond):
            self.violate(mechanism, **detail)
            return False
        return True

    def require(self, cond, mechanism, **detail):
        if not self.check(cond, mechanism, **detail):
            raise StopCase()

    def equal(self, got, want, mechanism, **detail):
        """exact (nan-aware) equality of arrays or scalars"""
        g = np.asarray(got)
        w = np.asarray(want)
        ok = g.shape == w.shape
        if ok:
            if g.dtype.kind in 'fc' or w.dtype.kind in 'fc':
                ok = np.array_equal(g, w, equal_nan=True)
            else:
                ok = np.array_equal(g, w)
        if not ok:
            detail.update(diff(g, w))
        return self.check(ok, mechanism, **detail)

    def close(self, got, want, mechanism, rtol=1e-9, atol=0.0, **detail):
        g = np.asarray(got, dtype='f8')
        w = np.asarray(want, dtype='f8')
        ok = g.shape == w.shape
        if ok:
            with np.errstate(all='ignore'):
                ok = np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not ok:
            detail.update(diff(g, w))
        return self.check(ok, mechanism, **detail)

    def unchanged(self, before, after, mechanism, **detail):
        """before is a snapshot() and after the live object"""
        return self.check(
            before == snapshot(after), mechanism, **detail)

    def expect_raises(self, fn, types, mechanism, **detail):
        """the call must be refused with one of the exception types"""
        try:
            fn()
        except types:
            self.counters["refusals_observed"] += 1
            return self.check(True, mechanism)
        except Inconclusive:
            raise
        except Exception as e:
            if standin_gap(e):
                raise
            return self.check(False, mechanism, raised=repr(e), **detail)
        return self.check(False, mechanism, raised=None, **detail)


def diff(g, w):
    out = dict(got_shape=g.shape, want_shape=w.shape)
    if g.shape == w.shape and g.dtype.names is None and g.dtype.kind in 'fiub':
        with np.errstate(all='ignore'):
            gg = g.astype('f8')
            ww = w.astype('f8')
            bad = ~((gg == ww) | (np.isnan(gg) & np.isnan(ww)))
            out['ndiff'] = int(bad.sum())
            if bad.any():
                d = np.where(bad, np.abs(gg - ww), -1)
                d = np.where(np.isnan(d), np.inf, d)
                k = np.unravel_index(np.argmax(d), d.shape)
                out['worst_at'] = [int(v) for v in k]
                out['got'] = float(gg[k])
                out['want'] = float(ww[k])
    else:
        out['got'] = jsonable(g)
        out['want'] = jsonable(w)
    return out


def snapshot(obj, _depth=0):
    """a hashable digest of the observable state of arrays/dicts/observations"""
    if _depth > 8:
        return "deep"
    if isinstance(obj, np.ndarray):
        return ("arr", obj.shape, str(obj.dtype),
                hashlib.sha1(np.ascontiguousarray(obj).tobytes()).hexdigest())
    if isinstance(obj, dict):
        items = tuple(
            (str(k), snapshot(v, _depth+1))
            for k, v in sorted(obj.items(), key=lambda kv: str(kv[0]))
        )
        return ("dict", items)
    if isinstance(obj, (list, tuple)):
        extra = ()
        if hasattr(obj, "meta"):
            extra = (snapshot(obj.meta, _depth+1),)
        return ("seq", tuple(snapshot(v, _depth+1) for v in obj)) + extra
    if isinstance(obj, np.random.RandomState):
        s = obj.get_state()
        return ("rng", hashlib.sha1(s[1].tobytes()).hexdigest(), s[2], s[3], s[4])
    if isinstance(obj, (bool, int, float, str, type(None), np.generic)):
        return ("val", repr(obj))
    if hasattr(obj, "jacobian") and hasattr(obj, "image"):
        out = ["obs", snapshot(np.array(obj.image)), repr(obj.jacobian)]
        for name in ("weight", "bmask", "ormask", "noise", "mfrac"):
            has = getattr(obj, "has_" + name, None)
            if name == "weight" or (has is not None and has()):
                out.append((name, snapshot(np.array(getattr(obj, name)))))
        if obj.has_psf():
            out.append(snapshot(obj.psf, _depth+1))
        return tuple(out)
    return ("repr", type(obj).__name__)


def global_rng_state():
    s = np.random.get_state()
    return (hashlib.sha1(s[1].tobytes()).hexdigest(), s[2], s[3], s[4],
            hashlib.sha1(repr(random.getstate()).encode()).hexdigest())


STANDIN_ROOTS = ("ngmix", "sxdes", "meds", "lsst", "descwl_coadd",
                 "descwl_shear_sims")


class StandinGap(NotImplementedError):
    """the code asked a stand-in for something it does not model"""


def standin_gap(e):
    """the exception says a stand-in lacks something, not that the code is
    wrong"""
    if isinstance(e, (Inconclusive, StandinGap)):
        return True
    if isinstance(e, NotImplementedError) and "stand-in" in str(e):
        return True
    msg = str(e)
    if isinstance(e, AttributeError):
        for r in STANDIN_ROOTS:
            if "module '%s" % r in msg:
                return True
        # an attribute of one of our stand-in classes
        obj = getattr(e, "obj", None)
        mod = getattr(type(obj), "__module__", "") or ""
        if obj is not None and mod.split(".")[0] in STANDIN_ROOTS:
            # a property of the class that refuses, as the real one does,
            # is not something the stand-in lacks
            name = getattr(e, "name", None)
            name = (name or "").lstrip("_")
            return not (name and hasattr(type(obj), name))
    if isinstance(e, ImportError):
        name = (getattr(e, "name", None) or "").split(".")[0]
        if name in STANDIN_ROOTS:
            return True
    return False


def tb_frames(e):
    out = []
    for f in traceback.extract_tb(e.__traceback__):
        out.append("%s:%d %s" % (f.filename, f.lineno, f.name))
    return out[-8:]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, family, seed, index, tier, ctx=None, limit=300):
    fn = mod.FAMILIES[family][0]
    ctx = Ctx(mod.PROPERTY, family, tier) if ctx is None else ctx
    ctx.index = index
    ctx.info = {}
    rng = case_rng(mod.PROPERTY, family, seed, index)
    ctx.counters["cases"] += 1
    nv = len(ctx.violations)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(ctx, rng, index)
    except StopCase:
        pass
    except CaseTimeout:
        ctx.counters["inconclusive"] += 1
        ctx.counters["timeouts"] += 1
    except Inconclusive as e:
        ctx.counters["inconclusive"] += 1
        ctx.samples.append({"inconclusive": str(e)})
    except Exception as e:
        if standin_gap(e):
            ctx.counters["inconclusive"] += 1
            ctx.samples.append(
                {"inconclusive": repr(e), "frames": tb_frames(e)})
        else:
            ctx.violate(
                "unexpected-exception/%s" % type(e).__name__,
                error=repr(e)[:500], frames=tb_frames(e),
            )
    finally:
        signal.alarm(0)
    if len(ctx.violations) == nv:
        ctx.counters["cases_held"] += 1
    return ctx


def _worker(args):
    modname, family, seed, indices, tier, deadline, limit = args
    import importlib
    mod = importlib.import_module(modname)
    ctx = Ctx(mod.PROPERTY, family, tier)
    for i in indices:
        if time.time() > deadline:
            ctx.counters["cases_not_run_deadline"] += 1
            continue
        run_case(mod, family, seed, i, tier, ctx=ctx, limit=limit)
        if len(ctx.violations) > 40:
            break
    return dict(
        family=family, counters=dict(ctx.counters), sigs=list(ctx.sigs),
        samples=ctx.samples[:3], violations=ctx.violations[:40],
    )


def run_families(modname, mod, tier, seed, only=None, nproc=None, wall=None):
    nproc = nproc or max(1, min(8, os.cpu_count() or 1))
    wall = wall or (600 if tier == "quick" else 5400)
    deadline = time.time() + wall
    limit = getattr(mod, "CASE_LIMIT", 300)
    warm = getattr(mod, "warmup", None)
    if warm is not None:
        try:
            warm()
        except Exception:
            # the cases will tell what is wrong
            pass
    jobs = []
    for family, spec in mod.FAMILIES.items():
        if only and family not in only:
            continue
        n = spec[1] if tier == "quick" else spec[2]
        if n <= 0:
            continue
        nchunk = max(1, min(n, nproc * 4))
        for c in range(nchunk):
            idx = list(range(c, n, nchunk))
            jobs.append((modname, family, seed, idx, tier, deadline, limit))
    results = []
    if nproc == 1:
        results = [_worker(j) for j in jobs]
    else:
        mpctx = multiprocessing.get_context("fork")
        # a fresh process per job would cost imports; fork shares them
        with mpctx.Pool(nproc, maxtasksperchild=None) as pool:
            pending = [pool.apply_async(_worker, (j,)) for j in jobs]
            for p, j in zip(pending, jobs):
                left = max(5.0, deadline + 200 - time.time())
                try:
                    results.append(p.get(timeout=left))
                except multiprocessing.TimeoutError:
                    results.append(dict(
                        family=j[1], counters={"inconclusive": len(j[3])},
                        sigs=[], samples=[], violations=[]))
            pool.terminate()
    return results
