import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
from mon import Inconclusive

PROPERTY = "M06"
RULE = ("batches of hostile inputs (1-pixel-wide images, holes and bad pixels "
        "at and off every border, buffers larger than the image, zero "
        "buffers) run through the public entry points compiled with bounds "
        "checking and again interpreted; every input is one event; "
        "non-trivial when both runs produced an array; distinct by "
        "(operation, kind, shape)")
REQUIRED = ["hole_events", "win_events", "edge_events", "interp_events",
            "boundschecked_runs", "interpreted_runs"]
ASSUMPTIONS = [
    "an out-of-range index below zero that wraps to a valid element is not a "
    "memory error; its effect on values is judged by M01, M02 and M05",
]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def spawn(seed, n, path, **env):
    e = dict(os.environ)
    e.update(env)
    p = subprocess.run(
        [sys.executable, os.path.join(HERE, "kern_worker.py"),
         str(seed), str(n), path],
        env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=280)
    return p


def fam_diff(ctx, rng, i):
    n = 240
    seed = int(rng.randint(2**31))
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, "a"), os.path.join(d, "b")
        outs = []
        for path, env, name in (
            (a, dict(NUMBA_BOUNDSCHECK="1", NUMBA_DISABLE_JIT="0"),
             "boundschecked_runs"),
            (b, dict(NUMBA_DISABLE_JIT="1"), "interpreted_runs"),
        ):
            try:
                p = spawn(seed, n, path, **env)
            except subprocess.TimeoutExpired:
                raise Inconclusive("worker timed out")
            if p.returncode < 0:
                ctx.check(False, "kernel-crashed/" + name,
                          signal=-p.returncode, seed=seed,
                          tail=p.stdout.decode(errors="replace")[-500:])
                return
            if p.returncode != 0:
                ctx.check(False, "worker-failed/" + name,
                          tail=p.stdout.decode(errors="replace")[-800:])
                return
            with open(path, "rb") as fp:
                outs.append(pickle.load(fp))
            ctx.count(name)
    (ia, ra), (ib, rb) = outs
    if not (ia["boundscheck"] and not ia["disable_jit"]
            and ib["disable_jit"]):
        raise Inconclusive("sanitizer configuration not in force: %s %s"
                           % (ia, ib))
    ctx.count("compiled_signatures", ia["compiled"])
    for k, (x, y) in enumerate(zip(ra, rb)):
        op, kind, dims, res, err = x
        _, _, _, res2, err2 = y
        w = dict(op=op, kind=kind, dims=dims, k=k, seed=seed)
        for e, mode in ((err, "compiled"), (err2, "interpreted")):
            if e is not None and e[0] in ("IndexError", "MemoryError",
                                          "SystemError"):
                ctx.check(False, "out-of-bounds/" + op, error=e, mode=mode,
                          **w)
        # buff=0 leaves nothing to interpolate from: both must refuse alike
        if err is not None or err2 is not None:
            ctx.check(
                err is not None and err2 is not None and err[0] == err2[0],
                "compiled-and-interpreted-fail-differently/" + op,
                compiled=err, interpreted=err2, **w)
            ctx.check(
                op == "interp" and err[0] in ("ValueError", "QhullError"),
                "kernel-raised/" + op, error=err, **w)
            ctx.count("both_refused")
            continue
        ctx.check((res is None) == (res2 is None),
                  "compiled-differs/" + op, **w)
        ctx.count(op + "_events")
        if res is None or res2 is None:
            continue
        ctx.check(res.dtype == res2.dtype, "dtype-differs/" + op, **w)
        ctx.close(res, res2, "compiled-differs/" + op, rtol=1e-9, atol=1e-9,
                  **w)
        ctx.nontrivial(op, kind, dims)
    ctx.sample(dict(seed=seed, first=[ra[0][0], ra[0][1], ra[0][2]]))


FAMILIES = {"diff": (fam_diff, 8, 120)}
