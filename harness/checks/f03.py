import numpy as np
import ngmix
import common
from mon import snapshot

PROPERTY = "F03"
RULE = ("multi-band observations with identical geometry (or one of: other "
        "world transform, image shape, PSF shape, PSF transform, missing "
        "PSF, missing planes in some bands, zero weight band) x 1-6 bands x "
        "ordered shear-band subsets; non-trivial when at least two bands are "
        "combined or refused; distinct by (nband, subset, inconsistency, "
        "planes)")
REQUIRED = ["coadds", "coadd_multi", "refused", "single_band", "with_holes",
            "default_bands", "nothing_in_common"]
ASSUMPTIONS = ["each band has a single epoch"]
BAD = ["none", "none", "none", "jac", "shape", "psfshape", "psfjac", "nopsf",
       "plane", "zeroweight", "index", "cover"]


def make(rng, nband, bad, badband):
    n = (int(rng.randint(5, 20)), int(rng.randint(5, 20)))
    pn = (int(rng.randint(3, 9)), int(rng.randint(3, 9)))
    jac = common.make_jacobian(rng, n)
    pjac = common.make_jacobian(rng, pn)
    has = {k: rng.uniform() < 0.7 for k in ("bmask", "ormask", "noise",
                                            "mfrac")}
    mb = ngmix.MultiBandObsList(meta={"mb": 1, "shared": "mb"})
    for b in range(nband):
        nn, pp, jj, pj = n, pn, jac, pjac
        kw = {}
        planes = dict(has)
        psf = True
        weight = None
        if b == badband:
            if bad == "jac":
                jj = ngmix.Jacobian(
                    row=jac.row0 + 0.25, col=jac.col0, dvdrow=jac.dvdrow,
                    dvdcol=jac.dvdcol, dudrow=jac.dudrow, dudcol=jac.dudcol)
            elif bad == "shape":
                nn = (n[0]+1, n[1])
            elif bad == "psfshape":
                pp = (pn[0], pn[1]+2)
            elif bad == "psfjac":
                pj = ngmix.Jacobian(
                    row=pjac.row0, col=pjac.col0, dvdrow=pjac.dvdrow*1.01,
                    dvdcol=pjac.dvdcol, dudrow=pjac.dudrow,
                    dudcol=pjac.dudcol)
            elif bad == "nopsf":
                psf = False
            elif bad == "plane":
                k = str(rng.choice(sorted(planes)))
                planes[k] = not planes[k]
            elif bad == "zeroweight":
                weight = np.zeros(nn)
                kw["ignore_zero_weight"] = False
        if weight is None:
            weight = np.full(nn, rng.uniform(0.1, 50))
            wk = rng.randint(3)
            if wk > 0:
                weight *= rng.uniform(0.5, 2, size=nn)
            if wk == 2:
                weight[rng.uniform(size=nn) < 0.15] = 0
                weight[0, 0] = 3.0
        if planes["bmask"]:
            kw["bmask"] = rng.choice([0, 1, 2, 4, 2**20, 2**30],
                                     size=nn).astype('i4')
        if planes["ormask"]:
            kw["ormask"] = rng.choice([0, 1, 8, 2**9], size=nn).astype('i4')
        if planes["noise"]:
            kw["noise"] = rng.normal(size=nn)
        if planes["mfrac"]:
            kw["mfrac"] = rng.uniform(size=nn)
        if psf:
            kw["psf"] = ngmix.Observation(
                rng.uniform(size=pp), weight=np.ones(pp), jacobian=pj,
                meta={"psfband": b})
        obs = ngmix.Observation(
            rng.normal(size=nn)*10**rng.uniform(-2, 3), weight=weight,
            jacobian=jj, meta={"band": b, "only%d" % b: b}, **kw)
        ol = ngmix.ObsList(meta={"listmeta": b})
        ol.append(obs)
        mb.append(ol)
    return mb


def fam_coadd(ctx, rng, i):
    from metadetect.fitting import make_coadd_obs
    from metadetect import procflags as pf
    nband = int(rng.randint(1, 7))
    bad = str(rng.choice(BAD))
    badband = int(rng.randint(nband))
    mb = make(rng, nband, bad, badband)
    k = int(rng.randint(1, nband+1))
    sb = [int(b) for b in rng.permutation(nband)[:k]]
    arg = sb
    if bad == "index":
        arg = sb[:]
        if rng.uniform() < 0.5:
            arg[rng.randint(len(arg))] = nband + int(rng.randint(3))
        else:
            # more bands asked for than there are
            arg.insert(rng.randint(len(arg) + 1),
                       nband + int(rng.randint(3)))
    if arg == sb and k == nband and rng.uniform() < 0.6:
        arg, sb = None, list(range(nband))
    cover = bad == "cover" and len(sb) > 1
    if cover:
        # every pixel is unusable in one band or another
        part = rng.randint(len(sb), size=mb[0][0].image.shape)
        part.flat[:len(sb)] = np.arange(len(sb))
        for j, b in enumerate(sb):
            o = mb[b][0]
            with o.writeable():
                o.weight[:] = np.where(part == j, 0, rng.uniform(1, 5))
    ctx.describe(nband=nband, bad=bad, badband=badband, shear_bands=arg)
    snap = snapshot(mb)
    kw = {} if arg is None else {"shear_bands": arg}
    with np.errstate(all='ignore'):
        cobs, flags = make_coadd_obs(mb, **kw)
    ctx.unchanged(snap, mb, "input-modified")
    if arg is None:
        ctx.count("default_bands")
    if bad == "index":
        ctx.check(flags & pf.INCONSISTENT_BANDS and cobs is None,
                  "unknown-band-accepted", flags=flags)
        ctx.count("refused")
        ctx.nontrivial("index", nband, len(sb))
        return
    inconsistent = (bad in ("jac", "shape", "psfshape", "psfjac", "nopsf",
                            "plane") and badband in sb and len(sb) > 1)
    zero = bad == "zeroweight" and badband in sb and len(sb) > 1
    if inconsistent:
        ctx.check(flags != 0 and flags & pf.INCONSISTENT_BANDS
                  and cobs is None, "inconsistent-bands-combined/" + bad,
                  flags=flags)
        ctx.count("refused")
        ctx.nontrivial(bad, nband, len(sb))
        return
    if zero:
        ctx.check(flags & pf.ZERO_WEIGHTS and cobs is None,
                  "zero-weight-band-combined", flags=flags)
        ctx.count("refused")
        ctx.nontrivial(bad, nband, len(sb))
        return
    if len(sb) == 1:
        o = mb[sb[0]][0]
        ctx.require(flags == 0 and cobs is not None, "single-band-flagged",
                    flags=flags)
        ctx.check(snapshot(cobs) == snapshot(o), "single-band-not-returned")
        ctx.count("single_band")
        return
    obs = [mb[b][0] for b in sb]
    w = np.array([np.median(o.weight[o.weight > 0]) for o in obs])
    w /= w.sum()
    with np.errstate(all='ignore'):
        var = sum(a*a/o.weight for a, o in zip(w, obs))
        wt = 1/var
    wt[~np.isfinite(wt)] = 0
    anyzero = np.any([o.weight <= 0 for o in obs], axis=0)
    wt[anyzero] = 0
    if not np.any(wt > 0):
        ctx.check(flags & pf.ZERO_WEIGHTS and cobs is None,
                  "all-zero-weight-coadd-accepted", flags=flags)
        ctx.count("nothing_in_common")
        ctx.nontrivial("cover", nband, len(sb))
        return
    ctx.require(flags == 0 and cobs is not None, "consistent-bands-flagged",
                flags=flags)
    ctx.count("coadds")
    ctx.count("coadd_multi")
    tol = dict(rtol=1e-10, atol=1e-12)
    ctx.close(cobs.image, sum(a*o.image for a, o in zip(w, obs)),
              "coadd-image", rtol=1e-10,
              atol=1e-12*max(np.abs(o.image).max() for o in obs))
    ctx.close(cobs.weight, wt, "coadd-weight", **tol)
    ctx.close(cobs.psf.image, sum(a*o.psf.image for a, o in zip(w, obs)),
              "coadd-psf", **tol)
    ctx.check(np.all(cobs.psf.weight > 0)
              and np.all(np.isfinite(cobs.psf.weight)), "coadd-psf-weight")
    for nme in ("noise", "mfrac"):
        has = getattr(obs[0], "has_" + nme)()
        ctx.check(getattr(cobs, "has_" + nme)() == has, "coadd-plane/" + nme)
        if has:
            ctx.close(getattr(cobs, nme),
                      sum(a*getattr(o, nme) for a, o in zip(w, obs)),
                      "coadd-" + nme, **tol)
    for nme in ("bmask", "ormask"):
        has = getattr(obs[0], "has_" + nme)()
        ctx.check(getattr(cobs, "has_" + nme)() == has, "coadd-plane/" + nme)
        if has:
            ctx.equal(getattr(cobs, nme),
                      np.bitwise_or.reduce([getattr(o, nme) for o in obs]),
                      "coadd-" + nme)
    ctx.equal(repr(cobs.jacobian), repr(obs[0].jacobian), "coadd-jacobian")
    ctx.equal(repr(cobs.psf.jacobian), repr(obs[0].psf.jacobian),
              "coadd-psf-jacobian")
    for b in sb:
        ctx.check(cobs.meta.get("only%d" % b) == b, "coadd-meta-lost")
    ctx.check(cobs.meta.get("mb") == 1, "coadd-meta-lost")
    if np.any(anyzero):
        ctx.count("with_holes")
    # order of the bands does not matter
    c2, f2 = make_coadd_obs(mb, shear_bands=sb[::-1])
    ctx.require(f2 == 0, "order-changes-flags", flags=f2)
    ctx.close(c2.image, cobs.image, "order-changes-image", rtol=1e-9,
              atol=1e-11*max(np.abs(o.image).max() for o in obs))
    ctx.close(c2.weight, cobs.weight, "order-changes-weight", rtol=1e-9)
    # new arrays: writing to the coadd does not reach the inputs
    for nme in ("image", "weight"):
        for o in obs:
            ctx.check(not np.shares_memory(getattr(cobs, nme),
                                           getattr(o, nme)),
                      "coadd-shares-memory/" + nme)
    ctx.nontrivial("ok", nband, tuple(sorted(sb)), bool(np.any(anyzero)))
    ctx.sample(ctx.info)


FAMILIES = {"coadd": (fam_coadd, 4000, 80000)}
