import math
import numpy as np
import galsim
import lsim

PROPERTY = "L05"
RULE = ("exposures of 24-60 pixels a side (square and not, at and away from "
        "the origin, float and double), 1-3 bands with their own PSF, noise "
        "exposures, sources and pure noise, every subset and order of types, "
        "with and without PSF statistics; every band and type recomputed with "
        "galsim from the exposure; distinct by (bands, types, statistics, "
        "entry point, shape, dtype)")
REQUIRED = ["band_type_images", "fixnoise_images", "rotated_images",
            "psf_stats_runs", "default_types", "refused", "offset_cases",
            "nonsquare", "single_exposure_runs", "varying_psf",
            "shear_responses"]
ASSUMPTIONS = [
    "the round target PSF of a given PSF and its dilation with ellipticity "
    "are ngmix's (stand-in); deconvolution, shear, reconvolution and "
    "rotation are recomputed with galsim",
    "world systems are sky-handed similarities"]
STEP = 0.01
INTERP = "lanczos15"
DIRS = {"1p": (STEP, 0), "1m": (-STEP, 0), "2p": (0, STEP), "2m": (0, -STEP)}


def ref_psf(exp, box):
    from lsst.geom import Point2D
    cx = math.floor(box.getBeginX() + (box.getWidth()-1)/2 + 0.5)
    cy = math.floor(box.getBeginY() + (box.getHeight()-1)/2 + 0.5)
    return (cx, cy), np.array(exp.getPsf().computeKernelImage(
        Point2D(cx, cy)).array, dtype='f8')


def reference(image, exp, box, types, stats, rot, tweak=0.0):
    """{type: (image, psf image)} straight from galsim; tweak stretches the
    pixels slightly, to see how well the image is determined"""
    from ngmix.metacal.metacal import (
        _get_gauss_target_psf, _get_ellip_dilation)
    (cx, cy), parr = ref_psf(exp, box)
    dudx, dudy, dvdx, dvdy = lsim.true_jacobian(exp.getWcs(), cx, cy)
    w = galsim.JacobianWCS(dudx*(1 + tweak), dudy*(1 - tweak),
                           dvdx*(1 + tweak), dvdy*(1 - tweak))
    arr = np.array(image, dtype='f8')
    if rot:
        # a quarter turn counter-clockwise in the array
        arr = arr.T[::-1].copy()
    psf = galsim.InterpolatedImage(galsim.ImageD(parr, wcs=w),
                                   x_interpolant=INTERP)
    img = galsim.InterpolatedImage(galsim.ImageD(arr, wcs=w),
                                   x_interpolant=INTERP)
    dec = galsim.Convolve(img, galsim.Deconvolve(psf))
    if stats is None:
        target = _get_gauss_target_psf(psf, flux=parr.sum())
    else:
        T = stats['T']*_get_ellip_dilation(stats['e1'], stats['e2'],
                                           stats['T'])
        target = galsim.Gaussian(sigma=math.sqrt(T/2), flux=parr.sum())
    target = target.dilate(1 + 2*STEP)
    pim = galsim.ImageD(parr.shape[1], parr.shape[0], wcs=w)
    target.drawImage(image=pim, method='no_pixel')
    out = {}
    for t in types:
        o = dec
        if t != "noshear":
            o = dec.shear(g1=DIRS[t][0], g2=DIRS[t][1])
        im = galsim.ImageD(arr.shape[1], arr.shape[0], wcs=w)
        galsim.Convolve(o, target).drawImage(image=im, method='no_pixel')
        res = im.array
        if rot:
            res = res[::-1].T
        out[t] = res.copy()
    return out, pim.array.copy()


def gen(ctx, rng):
    lsim.new_planes(rng)
    box = lsim.random_box(rng, 24, 60)
    if box.getBeginX() != 0:
        ctx.count("offset_cases")
    if box.getWidth() != box.getHeight():
        ctx.count("nonsquare")
    wcs, scale = lsim.make_wcs(rng, lsim.box_center(box))
    bands = lsim.bands_of(rng, 1, 3 if rng.uniform() < .8 else 6)
    dt = 'f8' if rng.uniform() < 0.25 else 'f4'
    dims = (box.getHeight(), box.getWidth())
    exps, nexps = [], []
    for b in bands:
        psf = lsim.make_psf(rng, scale, dim=int(rng.choice([17, 21, 25, 31])))
        if type(psf).__name__ == "VaryingPsf":
            ctx.count("varying_psf")
        noise = float(lsim.unit(rng)*10**rng.uniform(-2, 1))
        im = np.zeros(dims)
        y, x = np.mgrid[:dims[0], :dims[1]]
        for _ in range(int(rng.randint(0, 4))):
            yc, xc = rng.uniform(0, dims[0]), rng.uniform(0, dims[1])
            s = rng.uniform(1.8, 3)
            e = rng.uniform(-0.3, 0.3)
            im += noise*rng.uniform(20, 200)*np.exp(-0.5*(
                (y-yc)**2*(1+e) + (x-xc)**2*(1-e))/s**2)
        e = lsim.make_exposure(rng, box, wcs, psf, b, noise=noise, image=im,
                               dtype=dt, bad_var=0.05*(rng.uniform() < 0.3))
        e.getMetadata()["KEY" + b] = int(rng.randint(99))
        exps.append(e)
        n = lsim.make_exposure(rng, box, wcs, psf, b, noise=noise, dtype=dt)
        nexps.append(n)
    return box, bands, wcs, scale, lsim.multi(exps), lsim.multi(nexps)


def stats_for(rng, n):
    out = np.zeros(n, dtype=[('e1', 'f8'), ('e2', 'f8'), ('T', 'f8'),
                             ('flags', 'i4')])
    out['e1'] = rng.uniform(-0.04, 0.04, size=n)
    out['e2'] = rng.uniform(-0.04, 0.04, size=n)
    out['T'] = rng.uniform(0.25, 0.5, size=n)
    return out


def close_image(ctx, got, want, mech, again=None, **w):
    top = max(np.abs(want).max(), 1e-30)
    err = np.abs(got - want).max()
    tol = 2e-5*top
    if err > tol and again is not None:
        # deconvolution may leave an image less well determined than that:
        # see what the rounding of the pixel shape does
        wob = np.abs(again() - want).max()
        tol += min(20*wob, 2e-3*top)
        ctx.count("poorly_determined_images")
    ctx.check(np.all(np.isfinite(got)) and err <= tol, mech,
              worst=float(err/top), tol=float(tol/top), **w)


def one(ctx, exp, src, box, j, t, image, psf, vfac, mech, again=None):
    close_image(ctx, exp.image.array, image, mech + "-image", again=again,
                t=t, band=j)
    ctx.check(exp.image.array.dtype == np.float64, mech + "-not-double")
    s = src.variance.array
    ctx.equal(exp.variance.array, s*np.float32(vfac), mech + "-variance",
              t=t, band=j)
    ctx.equal(exp.mask.array, src.mask.array, mech + "-mask", t=t, band=j)
    ctx.check(exp.getWcs() == src.getWcs(), mech + "-wcs", t=t)
    ctx.check(exp.getFilter() == src.getFilter(), mech + "-filter", t=t)
    ctx.check(exp.getBBox() == box, mech + "-box", t=t)
    from lsst.geom import Point2D
    p = exp.getPsf().computeKernelImage(Point2D(0, 0)).array
    ctx.close(p, psf/psf.sum(), mech + "-psf", rtol=1e-4,
              atol=1e-5*p.max(), t=t, band=j)


def fam_mb(ctx, rng, i):
    from metadetect.lsst import metacal_exposures as mc
    box, bands, wcs, scale, mb, nb = gen(ctx, rng)
    allt = ["noshear", "1p", "1m", "2p", "2m"]
    if i % 5 == 0:
        types = None
        ctx.count("default_types")
    else:
        k = int(rng.randint(1, 4))
        types = [str(t) for t in rng.permutation(allt)[:k]]
    stats = stats_for(rng, len(bands)) if rng.uniform() < 0.5 else None
    if stats is not None:
        ctx.count("psf_stats_runs")
    mode = ["fix", "fix", "mb", "rot", "exp", "expfix"][i % 6]
    if i % 7 == 0:
        # a noise-only field
        for e in mb.singles:
            e.image.array[:, :] = rng.normal(size=e.image.array.shape)
    ctx.describe(box=repr(box), bands=bands, types=types, mode=mode,
                 stats=stats is not None)
    st, nst = lsim.mbstate(mb), lsim.mbstate(nb)
    want_types = types if types is not None else ["noshear", "1p", "1m"]
    kw = {}
    if types is not None:
        kw["types"] = types
    if stats is not None:
        kw["psf_stats"] = stats
    B = range(len(bands))
    if mode in ("fix", "mb", "rot"):
        if mode == "fix":
            md, nd = mc.get_metacal_mbexps_fixnoise(
                mbexp=mb, noise_mbexp=nb, **kw)
        elif mode == "rot":
            md, nd = None, mc.get_metacal_mbexps(mbexp=nb, rot=True, **kw)
        else:
            md, nd = mc.get_metacal_mbexps(mbexp=mb, **kw), None
    else:
        j = int(rng.randint(len(bands)))
        B = [j]
        if stats is not None:
            kw["psf_stats"] = stats[j]
        ctx.count("single_exposure_runs")
        if mode == "exp":
            md, nd = mc.get_metacal_exps(mb.singles[j], **kw), None
        else:
            md, nd = mc.get_metacal_exps_fixnoise(
                mb.singles[j], nb.singles[j], **kw)
    fix = md is not None and nd is not None
    ctx.check(lsim.mbstate(mb) == st, "input-modified")
    ctx.check(lsim.mbstate(nb) == nst, "noise-input-modified")
    for d in (md, nd):
        if d is None:
            continue
        ctx.require(set(d) == set(want_types), "types", got=sorted(d))
        if mode in ("fix", "mb", "rot"):
            for t in d:
                ctx.require(list(d[t].bands) == bands, "bands", t=t,
                            got=list(d[t].bands))

    def get(d, t, j):
        return d[t].singles[j] if mode in ("fix", "mb", "rot") else d[t]
    for j in B:
        s = None if stats is None else stats[j]
        e, n = mb.singles[j], nb.singles[j]
        if md is not None:
            im, p = reference(e.image.array, e, box, want_types, s, False)
        if nd is not None:
            nim, np_ = reference(n.image.array, n, box, want_types, s, True)

        def again(t, img, noi, e=e, n=n, s=s):
            out = 0
            if img:
                out = out + reference(e.image.array, e, box, [t], s, False,
                                      tweak=1e-7)[0][t]
            if noi:
                out = out + reference(n.image.array, n, box, [t], s, True,
                                      tweak=1e-7)[0][t]
            return out
        for t in want_types:
            if md is not None:
                full = im[t] + nim[t] if fix else im[t]
                one(ctx, get(md, t, j), e, box, j, t, full, p,
                    2 if fix else 1, "sheared",
                    again=lambda: again(t, True, fix))
                ctx.count("fixnoise_images" if fix else "band_type_images")
                if mode != "exp" and mode != "expfix":
                    pass
                else:
                    ctx.check(get(md, t, j).getMetadata().get(
                        "KEY" + bands[j]) == e.getMetadata().get(
                            "KEY" + bands[j]), "metadata-lost", t=t)
            if nd is not None:
                one(ctx, get(nd, t, j), n, box, j, t, nim[t], np_, 1,
                    "sheared-noise", again=lambda: again(t, False, True))
                ctx.count("rotated_images")
                ctx.count("band_type_images")
        if md is not None and "1p" in want_types and "1m" in want_types:
            # the pixels respond to the shear at all
            a, b = im["1p"], im["1m"]
            ctx.count("shear_responses", int(np.abs(a - b).max() > 0))
    ctx.nontrivial(len(bands), tuple(want_types), stats is not None, mode,
                   box.getWidth() == box.getHeight(),
                   str(mb.singles[0].image.array.dtype))
    ctx.sample(ctx.info)


def fam_refuse(ctx, rng, i):
    from metadetect.lsst import metacal_exposures as mc
    box, bands, wcs, scale, mb, nb = gen(ctx, rng)
    bad = stats_for(rng, len(bands) + 1)
    ctx.describe(bands=bands)
    ctx.expect_raises(
        lambda: mc.get_metacal_mbexps_fixnoise(
            mbexp=mb, noise_mbexp=nb, psf_stats=bad),
        AssertionError, "mismatched-psf-stats-accepted")
    t = str(rng.choice(["3p", "1pm", "", "NOSHEAR", "1p_psf"]))
    ctx.expect_raises(
        lambda: mc.get_metacal_mbexps(mbexp=mb, types=[t]), ValueError,
        "unknown-type-accepted", t=t)
    for k, v in DIRS.items():
        s = mc.get_shear_from_type(k)
        ctx.close(np.array([s.g1, s.g2]), np.array(v), "type-direction", t=k,
                  rtol=1e-12, atol=1e-15)
    ctx.count("refused")


FAMILIES = {"mb": (fam_mb, 160, 3000), "refuse": (fam_refuse, 8, 40)}
