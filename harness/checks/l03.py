import numpy as np
import ngmix
import lsim
from mon import snapshot

PROPERTY = "L03"
RULE = ("exposures of 15-60 pixels a side, at and away from the origin, float "
        "and double, with world systems of any rotation, scale and distance "
        "from the reference pixel, constant and position-dependent PSFs, "
        "variances with inf, zero, nan and negative pixels, random mask bits; "
        "1-5 bands per coadd, some of them without any usable pixel; distinct "
        "by (family, offset, dtype, bad variance, PSF kind, options)")
REQUIRED = ["roundtrips", "offset_cases", "bad_variance_pixels",
            "varying_psf", "coadds", "coadd_partial_pixels",
            "coadd_dead_bands", "coadd_none", "obs_coadds", "extracted_obs",
            "refused", "copies", "coadd_data", "trimmed", "zero_weight_raised"]
ASSUMPTIONS = [
    "world systems are sky-handed similarities (rotation and one scale), as "
    "the coadds' are; the local Jacobian is compared to 1e-4 of the scale"]


def jac_check(ctx, jac, wcs, box, cen, mech, scale, rel=True):
    want = lsim.true_jacobian(wcs, cen[0], cen[1])
    ctx.close(np.array(lsim.jac_tuple(jac)), np.array(want),
              mech + "/matrix", rtol=0, atol=2e-4*scale)
    if rel:
        r, c = lsim.jac_cen(jac)
        ctx.close(np.array([r, c]),
                  np.array([cen[1] - box.getBeginY(),
                            cen[0] - box.getBeginX()]),
                  mech + "/center", rtol=0, atol=1e-5)


def gen(rng, ctx, lo=15, hi=60, bad=None, nband=1):
    lsim.new_planes(rng)
    box = lsim.random_box(rng, lo, hi)
    off = box.getBeginX() != 0
    if off:
        ctx.count("offset_cases")
    wcs, scale = lsim.make_wcs(rng, lsim.box_center(box))
    exps = []
    bands = [str(b) for b in rng.choice(list("ugrizy"), size=nband,
                                        replace=False)]
    bv = float(rng.choice([0, 0.02, 0.3])) if bad is None else bad
    dim = int(rng.choice([11, 15, 21]))
    # in any units
    unit = 10**rng.uniform(-8, 8) if rng.uniform() < 0.4 else 1.0
    for b in bands:
        psf = lsim.make_psf(rng, scale, dim=dim,
                            varying=rng.uniform() < 0.5)
        exps.append(lsim.make_exposure(
            rng, box, wcs, psf, b, bad_var=bv,
            noise=float(unit*10**rng.uniform(-2, 2))))
    return box, wcs, scale, exps, off


def psf_at(exp, x, y):
    from lsst.geom import Point2D
    return np.array(exp.getPsf().computeKernelImage(Point2D(x, y)).array)


def kinds(exp):
    return (type(exp.getPsf()).__name__, str(exp.image.array.dtype))


def fam_round(ctx, rng, i):
    from metadetect.lsst import util
    from lsst.afw import image as ai
    box, wcs, scale, (exp,), off = gen(rng, ctx)
    plane = str(rng.choice(["ormask", "bmask", None]))
    store = bool(rng.uniform() < 0.5)
    ctx.describe(box=repr(box), plane=plane, store=store, kinds=kinds(exp))
    im, va, mk = lsim.planes(exp)
    st = lsim.state(exp)
    kw = {}
    if plane != "None":
        kw["copy_mask_to"] = plane
    if store:
        kw["store_exp"] = True
    obs = util.exp2obs(exp, **kw)
    ctx.check(lsim.state(exp) == st, "exp2obs-modified-exposure")
    ctx.equal(obs.image, im.astype('f8'), "exp2obs-image")
    with np.errstate(all="ignore"):
        w = np.where(va > 0, 1/va.astype('f8'), 0.0)
    w[~(va > 0)] = 0
    bad = ~(va > 0) | ~np.isfinite(va)
    ctx.count("bad_variance_pixels", bad.sum())
    ctx.close(obs.weight, w, "exp2obs-weight", rtol=2e-6, atol=0)
    ctx.check(np.all(obs.weight[bad] == 0), "exp2obs-weight-of-bad-variance")
    name = plane if plane != "None" else "ormask"
    other = "bmask" if name == "ormask" else "ormask"
    ctx.equal(getattr(obs, name), mk, "exp2obs-mask", plane=name)
    ctx.check(np.all(getattr(obs, other) == 0), "exp2obs-other-mask")
    ctx.check(("exposure" in obs.meta) == store
              and (not store or obs.meta["exposure"] is exp),
              "exp2obs-stored-exposure")
    cen = (int(np.floor(box.getBeginX() + (box.getWidth()-1)/2 + 0.5)),
           int(np.floor(box.getBeginY() + (box.getHeight()-1)/2 + 0.5)))
    alt = [(cx, cy) for cx in {cen[0], int(np.floor(
        box.getBeginX() + (box.getWidth()-1)/2))} for cy in {cen[1], int(
            np.floor(box.getBeginY() + (box.getHeight()-1)/2))}]
    r, c = lsim.jac_cen(obs.jacobian)
    got = (int(round(c + box.getBeginX())), int(round(r + box.getBeginY())))
    ctx.require(got in alt, "exp2obs-center", got=(r, c), want=alt)
    jac_check(ctx, obs.jacobian, wcs, box, got, "exp2obs-jacobian", scale)
    want = psf_at(exp, *got)
    ctx.equal(obs.psf.image, want, "exp2obs-psf")
    ctx.close(np.array(lsim.jac_tuple(obs.psf.jacobian)),
              np.array(lsim.jac_tuple(obs.jacobian)), "exp2obs-psf-jacobian")
    ctx.close(np.array(obs.psf.jacobian.get_cen()),
              (np.array(want.shape) - 1)/2.0, "exp2obs-psf-center")
    ctx.check(np.all(obs.psf.weight > 0), "exp2obs-psf-weight")
    # and back
    target = None
    if rng.uniform() < 0.5:
        cls = ai.ExposureD if rng.uniform() < 0.5 else ai.ExposureF
        target = cls(box)
        target.image.array[:, :] = 99
        target.mask.array[:, :] = -1
        target.setWcs(wcs)
        target.setPsf(exp.getPsf())
    cp = bool(rng.uniform() < 0.6)
    osnap = snapshot([obs.image, obs.weight, obs.bmask, obs.ormask,
                      obs.psf.image])
    bkw = dict(exp=target) if target is not None else {}
    if cp:
        bkw["copy_psf"] = True
    if name == "bmask":
        if rng.uniform() < 0.5:
            bkw["copy_mask_from"] = "bmask"
    else:
        bkw["copy_mask_from"] = "ormask"
    back = util.obs2exp(obs, **bkw)
    ctx.unchanged(osnap, [obs.image, obs.weight, obs.bmask, obs.ormask,
                          obs.psf.image], "obs2exp-modified-observation")
    if target is not None:
        ctx.check(back is target, "obs2exp-other-exposure-returned")
        ctx.check(back.getWcs() is wcs, "obs2exp-wcs-lost")
        if not cp:
            ctx.check(back.getPsf() is exp.getPsf(), "obs2exp-psf-replaced")
    bt = back.image.array.dtype
    ctx.equal(back.image.array, im.astype(bt), "round-trip-image")
    ctx.equal(back.mask.array, mk, "round-trip-mask")
    ctx.check(np.all(np.isposinf(back.variance.array[bad])),
              "round-trip-variance-of-bad-pixels")
    ctx.close(back.variance.array[~bad], va[~bad], "round-trip-variance",
              rtol=1e-6, atol=0)
    if cp:
        from lsst.geom import Point2D
        p = back.getPsf().computeKernelImage(Point2D(0, 0)).array
        ctx.close(p, want/want.sum(), "round-trip-psf", rtol=1e-9,
                  atol=1e-12)
    # the exposure is its own: changing it leaves the observation alone
    back.image.array[:, :] += 1
    back.variance.array[:, :] = 3
    back.mask.array[:, :] = 1
    ctx.unchanged(osnap, [obs.image, obs.weight, obs.bmask, obs.ormask,
                          obs.psf.image], "obs2exp-shares-storage")
    if i % 8 == 0:
        ctx.expect_raises(lambda: util.exp2obs(exp, copy_mask_to="mask"),
                          RuntimeError, "bad-mask-name-accepted")
        ctx.expect_raises(lambda: util.obs2exp(obs, copy_mask_from="mask"),
                          RuntimeError, "bad-mask-name-accepted")
        ctx.count("refused")
    if kinds(exp)[0] == "VaryingPsf":
        ctx.count("varying_psf")
    ctx.count("roundtrips")
    ctx.nontrivial("round", off, kinds(exp), bool(bad.any()), name,
                   target is None, cp)
    ctx.sample(ctx.info)


def fam_extract(ctx, rng, i):
    """extract_obs: uniform weight from the median positive variance, the
    Jacobian and PSF at the source"""
    from metadetect.lsst import util
    from lsst.afw.table import SourceCatalog
    from lsst.afw.detection import Footprint
    from lsst.afw.geom import SpanSet
    from lsst.geom import Point2D, Box2I, Point2I, Extent2I
    box, wcs, scale, (exp,), off = gen(rng, ctx)
    src = SourceCatalog().addNew()
    px = int(rng.randint(box.getBeginX() + 3, box.getEndX() - 3))
    py = int(rng.randint(box.getBeginY() + 3, box.getEndY() - 3))
    fp = Footprint(SpanSet(Box2I(Point2I(px - 1, py - 1), Extent2I(3, 3))))
    fp.addPeak(px, py, 5.0)
    src.setFootprint(fp)
    dx, dy = rng.uniform(-1, 1, size=2)
    src._cen = Point2D(px + dx, py + dy)
    src.updateCoord(wcs)
    kill = i % 9 == 0
    if kill:
        exp.variance.array[:, :] = rng.choice([0.0, -1.0, np.nan, np.inf])
    va = np.array(exp.variance.array)
    st = lsim.state(exp)
    ctx.describe(box=repr(box), cen=(px+dx, py+dy), kinds=kinds(exp),
                 kill=kill)
    # a stamp of the exposure keeps the coordinates of the whole
    sub = exp
    sbox = box
    if rng.uniform() < 0.6:
        sbox = Box2I(Point2I(px, py), Extent2I(1, 1))
        sbox.grow(int(rng.randint(3, 12)))
        sbox.clip(box)
        sub = exp[sbox]
        va = np.array(sub.variance.array)
    if not np.any(va > 0) or np.isinf(np.median(va[va > 0])):
        ctx.expect_raises(lambda: util.extract_obs(exp=sub, source=src),
                          util.AllZeroWeightError, "zero-weight-accepted")
        ctx.count("zero_weight_raised")
        return
    obs = util.extract_obs(exp=sub, source=src)
    ctx.check(lsim.state(exp) == st, "extract-modified-exposure")
    ctx.equal(obs.image, sub.image.array.astype('f8'), "extract-image")
    ctx.equal(obs.bmask, sub.mask.array, "extract-mask")
    med = np.median(va[va > 0])
    ctx.close(obs.weight, np.full(va.shape, 1/med), "extract-weight",
              rtol=1e-5)
    jac_check(ctx, obs.jacobian, wcs, sbox, (px + dx, py + dy),
              "extract-jacobian", scale)
    p = psf_at(exp, px + dx, py + dy)
    ctx.close(obs.psf.image, p, "extract-psf", rtol=1e-5, atol=1e-8)
    ctx.close(np.array(obs.psf.jacobian.get_cen()),
              (np.array(p.shape) - 1)/2.0, "extract-psf-center")
    ctx.close(np.array(lsim.jac_tuple(obs.psf.jacobian)),
              np.array(lsim.jac_tuple(obs.jacobian)), "extract-psf-jacobian")
    ctx.count("extracted_obs")
    if kinds(exp)[0] == "VaryingPsf":
        ctx.count("varying_psf")
    ctx.nontrivial("extract", off, kinds(exp), sbox == box)


def fam_jac(ctx, rng, i):
    from metadetect.lsst import util
    from lsst.geom import Point2D
    box, wcs, scale, (exp,), off = gen(rng, ctx)
    x = box.getBeginX() + rng.uniform(-30, box.getWidth() + 30)
    y = box.getBeginY() + rng.uniform(-30, box.getHeight() + 30)
    jac = util.get_jacobian(exp=exp, cen=Point2D(x, y))
    jac_check(ctx, jac, wcs, box, (x, y), "jacobian", scale)
    for dbl in (False, True):
        p, s = util.get_integer_center(wcs=wcs, bbox=box, as_double=dbl)
        ctx.check(abs(p.x - (box.getBeginX() + (box.getWidth()-1)/2)) <= 0.5
                  and abs(p.y - (box.getBeginY() + (box.getHeight()-1)/2))
                  <= 0.5 and p.x == int(p.x) and p.y == int(p.y),
                  "integer-center", got=(p.x, p.y))
        q = wcs.skyToPixel(s)
        ctx.close(np.array([q.x, q.y]), np.array([p.x, p.y]),
                  "integer-center-sky", rtol=0, atol=1e-5)
    ctx.nontrivial("jac", off, round(scale, 3))


def fam_coadd(ctx, rng, i):
    from metadetect.lsst import util
    n = int(rng.randint(1, 6))
    box, wcs, scale, exps, off = gen(rng, ctx, nband=n)
    dead = []
    if rng.uniform() < 0.25:
        k = n if rng.uniform() < 0.3 else int(rng.randint(1, n + 1))
        dead = [int(d) for d in rng.permutation(n)[:k]]
        v = rng.choice([0.0, np.nan, -1.0, np.inf])
        for d in dead:
            exps[d].variance.array[:, :] = v
            if rng.uniform() < 0.5:
                exps[d].image.array[:, :] = np.nan if not v > 0 else 0.0
    states = [lsim.state(e) for e in exps]
    ctx.describe(box=repr(box), n=n, dead=dead, off=off,
                 kinds=[kinds(e) for e in exps])
    pl = [lsim.planes(e) for e in exps]
    va = [p[1].astype('f8') for p in pl]
    ok = [v > 0 for v in va]
    with np.errstate(all="ignore"):
        wts = [1/np.median(v[k]) if k.any() else 0.0
               for v, k in zip(va, ok)]
    out = util.coadd_exposures(exps)
    for s, e in zip(states, exps):
        ctx.check(lsim.state(e) == s, "coadd-modified-input")
    if sum(wts) <= 0:
        ctx.check(out is None, "coadd-of-nothing")
        ctx.count("coadd_none")
        return
    ctx.require(out is not None, "no-coadd", wts=wts)
    if dead:
        ctx.count("coadd_dead_bands")
    used = sum(np.where(k, w, 0.0) for k, w in zip(ok, wts))
    num = sum(np.where(k, p[0]*w, 0.0) for k, w, p in zip(ok, wts, pl))
    mag = sum(np.where(k, np.abs(p[0])*w, 0.0)
              for k, w, p in zip(ok, wts, pl))
    some = used > 0
    every = some & np.all([k | (w == 0) for k, w in zip(ok, wts)], axis=0)
    part = some & ~every
    ctx.count("coadd_partial_pixels", part.sum())
    for sel, nm in ((every, "coadd-image"), (part, "coadd-partial-image")):
        got = out.image.array[sel]
        err = np.abs(got - num[sel]/used[sel])
        ctx.check(np.all(err <= 1e-5*mag[sel]/used[sel] + 1e-30), nm,
                  worst=float(err.max()) if err.size else 0)
    with np.errstate(all="ignore"):
        iv = sum(np.where(k, 1/v, 0.0) for k, v in zip(ok, va))
    g = iv > 0
    ctx.close(out.variance.array[g], 1/iv[g], "coadd-variance", rtol=1e-5)
    ctx.check(np.all(np.isposinf(out.variance.array[~g])),
              "coadd-variance-without-data")
    want = np.bitwise_or.reduce([p[2] for p in pl])
    ctx.equal(out.mask.array, want, "coadd-mask")
    ctx.check(out.getWcs() == wcs, "coadd-wcs")
    ctx.check(out.getBBox() == box, "coadd-bbox")
    from lsst.geom import Point2D
    got = out.getPsf().computeKernelImage(Point2D(0, 0)).array
    cx = box.getBeginX() + (box.getWidth()-1)/2
    cy = box.getBeginY() + (box.getHeight()-1)/2
    p = sum(w*psf_at(e, cx, cy) for w, e in zip(wts, exps))
    ctx.close(got, p/p.sum(), "coadd-psf", rtol=1e-4, atol=1e-6)
    ctx.close(got.sum(), 1.0, "coadd-psf-normalised", rtol=1e-6)
    ctx.count("coadds")
    if any(kinds(e)[0] == "VaryingPsf" for e in exps):
        ctx.count("varying_psf")
    ctx.nontrivial("coadd", n, off, len(dead), bool(part.any()),
                   [kinds(e) for e in exps])
    ctx.sample(ctx.info)


def fam_coadd_obs(ctx, rng, i):
    """the same combination for observations"""
    from metadetect.lsst import util
    n = int(rng.randint(1, 5))
    box, wcs, scale, exps, off = gen(rng, ctx, nband=n, bad=0.0)
    mb = ngmix.MultiBandObsList()
    holes = rng.uniform() < 0.4
    for e in exps:
        o = util.exp2obs(e)
        if holes:
            with o.writeable():
                k = rng.uniform(size=o.image.shape) < 0.1
                o.weight[k] = 0
        ol = ngmix.ObsList()
        ol.append(o)
        mb.append(ol)
    snap = [snapshot([ol[0].image, ol[0].weight, ol[0].psf.image])
            for ol in mb]
    ctx.describe(n=n, holes=holes, box=repr(box))
    for j, ol in enumerate(mb):
        ol[0].meta["band_%d" % j] = j
        ol[0].meta["last"] = j
    out = util.coadd_mbobs(mb)
    # every band's metadata, the later bands winning
    ctx.check(all(out.meta.get("band_%d" % j) == j for j in range(n))
              and out.meta.get("last") == n-1, "coadd-obs-meta",
              got={k: v for k, v in out.meta.items() if "orig" not in k})
    for s, ol in zip(snap, mb):
        ctx.unchanged(s, [ol[0].image, ol[0].weight, ol[0].psf.image],
                      "coadd-obs-modified-input")
    w = np.array([np.median(ol[0].weight[ol[0].weight > 0]) for ol in mb])
    im = sum(a*ol[0].image for a, ol in zip(w, mb))/w.sum()
    mag = sum(a*np.abs(ol[0].image) for a, ol in zip(w, mb))/w.sum()
    ctx.check(np.all(np.abs(out.image - im) <= 1e-5*mag + 1e-30),
              "coadd-obs-image")
    ctx.close(out.weight, sum(ol[0].weight for ol in mb), "coadd-obs-weight",
              rtol=1e-5)
    p = sum(a*ol[0].psf.image for a, ol in zip(w, mb))
    ctx.close(out.psf.image, p/p.sum(), "coadd-obs-psf", rtol=1e-6,
              atol=1e-9)
    ctx.close(np.array(lsim.jac_tuple(out.jacobian)),
              np.array(lsim.jac_tuple(mb[0][0].jacobian)),
              "coadd-obs-jacobian")
    ctx.close(np.array(out.jacobian.get_cen()),
              np.array(mb[0][0].jacobian.get_cen()), "coadd-obs-center")
    ctx.count("obs_coadds")
    ctx.nontrivial("coaddobs", n, holes, off)


def fam_copy(ctx, rng, i):
    """get_mbexp and copy_mbexp carry every component and share no pixels"""
    from metadetect.lsst import util
    n = int(rng.randint(1, 5))
    box, wcs, scale, exps, off = gen(rng, ctx, nband=n)
    if len({e.image.array.dtype for e in exps}) > 1:
        from lsst.afw import image as ai
        exps = [ai.ExposureF(e, deep=True) for e in exps]
    ctx.describe(n=n, box=repr(box))
    st = [lsim.state(e) for e in exps]
    mb = util.get_mbexp(exps)
    clear = bool(i % 3 == 0)
    mst = lsim.mbstate(mb)
    for which, new in (("get", mb), ("copy", util.copy_mbexp(
            mb, clear=clear) if clear else util.copy_mbexp(mb))):
        ctx.equal(list(new.bands), [e.getFilter().bandLabel for e in exps],
                  which + "-bands")
        for e, s in zip(exps, new.singles):
            im, va, mk = lsim.planes(e)
            if clear and which == "copy":
                ctx.check(np.all(s.image.array == 0), "copy-not-cleared")
            else:
                ctx.equal(s.image.array, im, which + "-image")
            ctx.equal(s.variance.array, va, which + "-variance")
            ctx.equal(s.mask.array, mk, which + "-mask")
            ctx.check(s.getFilter() == e.getFilter(), which + "-filter")
            ctx.check(s.getWcs() == e.getWcs(), which + "-wcs")
            ctx.require(s.getPsf() is not None, which + "-psf-lost")
            cx, cy = lsim.box_center(box)
            ctx.equal(psf_at(s, cx + 3, cy - 2), psf_at(e, cx + 3, cy - 2),
                      which + "-psf")
            ctx.check(s.getBBox() == box, which + "-bbox")
        if which == "copy":
            for s in new.singles:
                s.image.array[:, :] = 5
                s.variance.array[:, :] = 6
                s.mask.array[:, :] = 7
            ctx.check(lsim.mbstate(mb) == mst, "copy-shares-storage")
    ctx.check([lsim.state(e) for e in exps] == st, "copy-modified-source")
    ctx.count("copies")
    ctx.nontrivial("copy", n, off, clear)


def fam_coadd_data(ctx, rng, i):
    """the coadd data of the bands, with their masks set aside"""
    from metadetect.lsst import util
    n = int(rng.randint(1, 4))
    lsim.new_planes(rng)
    box = lsim.random_box(rng, 15, 40)
    wcs, scale = lsim.make_wcs(rng, lsim.box_center(box))
    bands = [str(b) for b in rng.choice(list("ugrizy"), size=n,
                                        replace=False)]
    data, keep = [], []
    for b in bands:
        psf = lsim.make_psf(rng, scale, dim=11)
        d = {"coadd_%sexp" % k: lsim.make_exposure(
            rng, box, wcs, psf, b, dtype='f4')
            for k in ("", "noise_", "mfrac_")}
        data.append(d)
        keep.append({k: lsim.planes(v) for k, v in d.items()})
    ctx.describe(n=n, box=repr(box))
    out = util.extract_multiband_coadd_data(data)
    ctx.check(set(out) == {"mbexp", "noise_mbexp", "mfrac_mbexp", "ormasks"},
              "coadd-data-keys", got=sorted(out))
    for j, b in enumerate(bands):
        for k, o in (("", "mbexp"), ("noise_", "noise_mbexp"),
                     ("mfrac_", "mfrac_mbexp")):
            s = out[o].singles[j]
            im, va, mk = keep[j]["coadd_%sexp" % k]
            ctx.equal(s.image.array, im, "coadd-data-image", which=o)
            ctx.equal(s.variance.array, va, "coadd-data-variance", which=o)
            ctx.check(np.all(s.mask.array == 0), "coadd-data-mask-not-zeroed",
                      which=o)
            ctx.check(s.getFilter().bandLabel == b, "coadd-data-band")
            ctx.check(s.getWcs() == wcs, "coadd-data-wcs")
        ctx.equal(out["ormasks"][j], keep[j]["coadd_exp"][2],
                  "coadd-data-ormask")
    ctx.count("coadd_data")
    ctx.nontrivial("coadddata", n, tuple(bands))


def fam_trim(ctx, rng, i):
    from metadetect.lsst import util
    odd = [int(2*v + 1) for v in rng.randint(0, 16, size=2)]
    im = rng.normal(size=odd)
    ctx.describe(dims=odd)
    snap = snapshot(im)
    out = util.trim_odd_image(im)
    m = min(odd)
    c0, c1 = (odd[0]-1)//2, (odd[1]-1)//2
    h = (m-1)//2
    ctx.equal(out, im[c0-h:c0+h+1, c1-h:c1+h+1], "trimmed-image")
    ctx.unchanged(snap, im, "trim-modified-input")
    if odd[0] != odd[1]:
        bad = im[:-1] if (odd[0] > 1 and odd[0]-1 != odd[1]) else None
        if bad is not None:
            ctx.expect_raises(lambda: util.trim_odd_image(bad),
                              AssertionError, "even-image-accepted")
            ctx.count("refused")
    ctx.count("trimmed")
    if odd[0] != odd[1]:
        ctx.nontrivial("trim", odd[0], odd[1])


FAMILIES = {
    "round": (fam_round, 300, 8000),
    "extract": (fam_extract, 200, 6000),
    "jac": (fam_jac, 100, 3000),
    "coadd": (fam_coadd, 300, 8000),
    "coadd_obs": (fam_coadd_obs, 100, 3000),
    "copy": (fam_copy, 100, 2500),
    "coadd_data": (fam_coadd_data, 60, 1500),
    "trim": (fam_trim, 100, 1500),
}
