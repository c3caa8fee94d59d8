import numpy as np
import ngmix
import common
import fitfake as ff
from mon import snapshot

PROPERTY = "F04"
RULE = ("square stamps with weight maps that are positive, have random "
        "holes, clustered masks, single zero or negative pixels, all-zero or "
        "become all-zero after symmetrisation; non-trivial when a zero "
        "weight pixel exists; distinct by (size, mask kind, holes)")
REQUIRED = ["symmetrised", "no_holes", "all_zero_after", "one_pixel"]
ASSUMPTIONS = ["stamps are square"]


def fam_sym(ctx, rng, i):
    from metadetect.fitting import symmetrize_obs_weights
    n = int(rng.randint(1, 24))
    kind = str(rng.choice(["full", "random", "half", "one", "negative",
                           "quadrants", "zero"]))
    w = rng.uniform(0.5, 4, size=(n, n))
    if rng.uniform() < 0.3:
        w[:] = w[0, 0]
    if rng.uniform() < 0.4:
        # in any units, and of any spread
        w *= 10**rng.uniform(-12, 12)
    if rng.uniform() < 0.2:
        w *= 10**rng.uniform(-8, 8, size=w.shape)
    if kind == "random":
        w[rng.uniform(size=w.shape) < rng.uniform(0.01, 0.4)] = 0
    elif kind == "half":
        k = rng.randint(1, n+1)
        if rng.uniform() < 0.5:
            w[:k] = 0
        else:
            w[:, n-k:] = 0
    elif kind == "one":
        w[rng.randint(n), rng.randint(n)] = 0
        ctx.count("one_pixel")
    elif kind == "negative":
        w[rng.randint(n), rng.randint(n)] = -1.0
    elif kind == "quadrants":
        w[:(n+1)//2, :(n+1)//2] = 0
    elif kind == "zero":
        w[:] = 0
    kw = {}
    if not np.any(w > 0):
        kw["ignore_zero_weight"] = False
    psf = ngmix.Observation(
        rng.uniform(size=(5, 5)), weight=np.ones((5, 5)),
        jacobian=ngmix.DiagonalJacobian(row=2, col=2, scale=0.2))
    obs = ngmix.Observation(
        rng.normal(size=w.shape), weight=w,
        bmask=rng.randint(0, 4, size=w.shape).astype('i4'),
        noise=rng.normal(size=w.shape),
        mfrac=rng.uniform(size=w.shape),
        jacobian=common.make_jacobian(rng, w.shape), psf=psf,
        meta={"a": 1}, **kw)
    ctx.describe(n=n, kind=kind)
    snap = snapshot(obs)
    new = symmetrize_obs_weights(obs)
    ctx.unchanged(snap, obs, "input-modified")
    ctx.check(new is not obs and not np.shares_memory(new.weight, obs.weight),
              "not-a-copy")
    want = ff.sym_weight(w)
    got = np.array(new.weight)
    if not np.any(w <= 0):
        ctx.count("no_holes")
        ctx.equal(got, w, "positive-map-changed")
    else:
        # zero where any quarter turn is not positive, else as before
        neg = w < 0
        ctx.equal(np.where(neg, 0, got), np.where(neg, 0, want),
                  "symmetrised-weight")
        ctx.count("symmetrised")
        ctx.nontrivial(n, kind, int((w <= 0).sum()) > 1)
    bad = got <= 0
    for k in (1, 2, 3):
        ctx.equal(np.rot90(bad, k), bad, "not-four-fold-symmetric")
    ctx.check(np.all(got[~bad] == w[~bad]), "kept-weight-changed")
    ctx.check(np.all(bad[w <= 0]), "masked-pixel-unmasked")
    if not np.any(got > 0) and np.any(w > 0):
        ctx.count("all_zero_after")
    # weightless pixels stay out of the fit wherever one with weight is left
    if np.any(got > 0):
        ctx.check(new.pixels.size == int((got > 0).sum()),
                  "fit-pixels-changed", n=int(new.pixels.size),
                  want=int((got > 0).sum()))
    # nothing else changes
    for nme in ("image", "bmask", "noise", "mfrac"):
        ctx.equal(getattr(new, nme), getattr(obs, nme), "plane-changed/" + nme)
    ctx.equal(repr(new.jacobian), repr(obs.jacobian), "jacobian-changed")
    ctx.equal(new.psf.image, obs.psf.image, "psf-changed")
    # idempotent
    again = symmetrize_obs_weights(new)
    ctx.equal(np.clip(again.weight, 0, None), np.clip(got, 0, None),
              "not-idempotent")
    ctx.sample(ctx.info)


FAMILIES = {"sym": (fam_sym, 4000, 60000)}
