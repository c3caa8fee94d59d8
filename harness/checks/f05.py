import numpy as np
import ngmix
import common
import fitfake as ff
from mon import snapshot
from checks.f01 import gal_mbobs

PROPERTY = "F05"
RULE = ("joint measurements (adaptive moments on the coadd, Gaussian fits on "
        "all shear bands or on the coadd) with recording runners that return "
        "unique values or failures, and with real runners on drawn galaxies; "
        "x 1-5 bands x ordered shear-band subsets x symmetrisation; "
        "non-trivial when at least two bands or a failure is involved; "
        "distinct by (model, nband, subset size, failure, symmetrised)")
REQUIRED = ["am_rows", "gauss_rows", "gauss_coadd_rows", "psf_failures",
            "obj_failures", "real_am", "real_gauss", "bad_name",
            "empty_list", "truth_rows"]
ASSUMPTIONS = ["fits themselves are done by ngmix (stand-in here)"]
BIT = 2**6


def ref_coadd(mb, sb):
    obs = [mb[b][0] for b in sb]
    if len(sb) == 1:
        return (np.array(obs[0].image), np.array(obs[0].weight),
                np.array(obs[0].psf.image))
    w = np.array([np.median(o.weight[o.weight > 0]) for o in obs])
    w /= w.sum()
    with np.errstate(all='ignore'):
        wt = 1/sum(a*a/o.weight for a, o in zip(w, obs))
    wt[~np.isfinite(wt)] = 0
    return (sum(a*o.image for a, o in zip(w, obs)), wt,
            sum(a*o.psf.image for a, o in zip(w, obs)))


class FakeRunner:
    def __init__(self, psf_res, obj_res):
        self.psf_res = psf_res
        self.obj_res = obj_res
        self.seen = []

    def go(self, obs):
        is_psf = not obs.has_psf()
        self.seen.append((is_psf, np.array(obs.image), np.array(obs.weight)))
        r = self.psf_res if is_psf else self.obj_res
        if isinstance(r, Exception):
            raise r
        return dict(r)


def am_res(rng, flags=0, T_flags=0):
    return dict(
        flags=flags, T_flags=T_flags, T=rng.uniform(0.2, 3),
        T_err=rng.uniform(0.01, 1), s2n=rng.uniform(5, 100),
        e=rng.uniform(-.5, .5, size=2),
        e_cov=ff.rand_cov(rng, 2, np.ones(2)*0.1), flux=rng.uniform(1, 9),
        g=rng.uniform(-.2, .2, size=2))


def bands(rng, nband):
    k = int(rng.randint(1, nband+1))
    sb = [int(b) for b in rng.permutation(nband)[:k]]
    arg = sb
    if k == nband and rng.uniform() < 0.5:
        arg, sb = None, list(range(nband))
    return sb, arg


def fam_am(ctx, rng, i):
    from metadetect.fitting import fit_mbobs_admom
    from metadetect import procflags as pf
    nband = int(rng.randint(1, 6))
    sb, arg = bands(rng, nband)
    mb = ff.fake_mbobs(rng, nband, n=9)
    for ol in mb:
        ol[0].psf.set_image(rng.uniform(size=ol[0].psf.image.shape))
    sym = bool(rng.uniform() < 0.5)
    fail = str(rng.choice(["none", "none", "psf", "psfexc", "obj", "objexc",
                           "T"]))
    pres = am_res(rng, BIT if fail == "psf" else 0)
    if fail == "psfexc":
        pres = RuntimeError("x")
    ores = am_res(rng, 2**5 if fail == "obj" else 0,
                  2**3 if fail == "T" else 0)
    if fail == "T":
        ores["flags"] = 2**3
    if fail == "objexc":
        ores = RuntimeError("x")
    run = FakeRunner(pres, ores)
    snap = snapshot(mb)
    ctx.describe(model="am", nband=nband, shear_bands=arg, fail=fail, sym=sym)
    kw = {} if arg is None else {"shear_bands": arg}
    im, wt, pim = ref_coadd(mb, sb)
    res = fit_mbobs_admom(mbobs=mb, bmask_flags=0, rng=rng, runner=run,
                          symmetrize=sym, **kw)
    ctx.unchanged(snap, mb, "input-modified")
    if not np.any(wt > 0):
        return

    def get(n):
        return np.asarray(res["am_" + n])[0]
    ctx.count("am_rows")
    flags = int(get("flags"))
    ctx.equal(np.asarray(res["shear_bands"])[0],
              "".join(str(b) for b in sorted(sb)), "shear-bands-label")
    sc = max(1, np.abs(im).max())
    for is_psf, oi, ow in run.seen:
        if is_psf:
            ctx.close(oi, pim, "psf-shown-to-runner", rtol=1e-9, atol=1e-12)
        else:
            ctx.close(oi, im, "coadd-shown-to-runner", rtol=1e-9,
                      atol=1e-11*sc)
            ctx.close(ow, ff.sym_weight(wt) if sym else wt,
                      "weights-shown-to-runner", rtol=1e-9)
    ctx.check(any(s[0] for s in run.seen), "psf-not-measured")
    if fail == "psfexc":
        ctx.check(flags & pf.PSF_FAILURE, "psf-failure-not-flagged",
                  flags=flags)
        ctx.check(np.isnan(get("psf_T")) and np.all(np.isnan(get("g"))),
                  "value-after-psf-failure")
        ctx.count("psf_failures")
    elif fail == "psf":
        ctx.check(flags & BIT and int(get("psf_flags")) & BIT,
                  "psf-failure-not-flagged", flags=flags)
        ctx.check(np.isnan(get("psf_T")) and np.isnan(get("T_ratio")),
                  "value-after-psf-failure")
        ctx.count("psf_failures")
    else:
        ctx.check(get("psf_flags") == 0, "psf-flagged")
        ctx.equal(get("psf_T"), pres["T"], "psf-size")
        ctx.equal(get("psf_g"), pres["e"], "psf-shape")
    if fail == "objexc":
        ctx.check(flags & pf.OBJ_FAILURE, "object-failure-not-flagged",
                  flags=flags)
        ctx.check(not flags & pf.NO_ATTEMPT,
                  "attempted-but-marked-not-attempted/object", flags=flags)
        ctx.count("obj_failures")
    if fail in ("obj", "T"):
        ctx.check(flags & ores["flags"] == ores["flags"]
                  and int(get("obj_flags")) & ores["flags"],
                  "object-failure-not-flagged", flags=flags)
        ctx.count("obj_failures")
    if fail in ("obj", "objexc", "T", "psfexc"):
        ctx.check(np.all(np.isnan(get("g"))) and np.isnan(get("s2n")),
                  "shape-after-failure")
    if fail in ("T", "objexc", "psfexc"):
        ctx.check(np.isnan(get("T")), "size-after-failure")
    if fail in ("none", "psf"):
        ctx.equal(get("T"), ores["T"], "object-size")
        ctx.equal(get("T_err"), ores["T_err"], "object-size-err")
        ctx.equal(get("g"), ores["e"], "object-shape")
        ctx.equal(get("g_cov"), ores["e_cov"], "object-shape-cov")
        ctx.equal(get("s2n"), ores["s2n"], "object-s2n")
        ctx.check(get("obj_flags") == 0 and get("T_flags") == 0,
                  "object-flagged")
    if fail == "none":
        ctx.check(flags == 0, "clean-flagged", flags=flags)
        ctx.close(get("T_ratio"), ores["T"]/pres["T"], "size-ratio")
    elif fail == "obj":
        # the sizes are there, and so is their ratio
        ctx.equal(get("T"), ores["T"], "object-size")
        ctx.close(get("T_ratio"), ores["T"]/pres["T"], "size-ratio")
    ctx.nontrivial("am", nband, len(sb), fail, sym)


class FakePSFRunner:
    def __init__(self, results):
        self.results = results
        self.seen = []

    def go(self, obs):
        for ol in obs:
            for o in ol:
                b = o.meta["band"]
                self.seen.append((b, np.array(o.psf.image)))
                o.psf.meta["result"] = dict(self.results[b])


class FakeObjRunner:
    def __init__(self, res):
        self.res = res
        self.seen = []

    def go(self, obs):
        self.seen.append([
            (np.array(o.image), np.array(o.weight)) for ol in obs for o in ol])
        if isinstance(self.res, Exception):
            raise self.res
        return dict(self.res)


def e2g(e):
    e = np.asarray(e, dtype='f8')
    a = np.hypot(*e)
    return e*np.tanh(0.5*np.arctanh(a))/a if a > 0 else e


def fam_gauss(ctx, rng, i):
    from metadetect.fitting import fit_mbobs_gauss
    from metadetect import procflags as pf
    coadd = bool(i % 2)
    nband = int(rng.randint(1, 6))
    sb, arg = bands(rng, nband)
    mb = ff.fake_mbobs(rng, nband, n=9)
    for ol in mb:
        ol[0].psf.set_image(rng.uniform(size=ol[0].psf.image.shape))
    # the psf runner leaves its results on the PSFs; all else must stay
    fail = str(rng.choice(["none", "none", "psf", "obj", "objexc", "bootexc",
                           "fluxexc"]))
    pkey = "e" if rng.uniform() < 0.5 else "g"
    pres = {b: {"flags": 0, "T": rng.uniform(0.2, 1),
                pkey: rng.uniform(-.2, .2, size=2)} for b in range(nband)}
    if fail == "psf":
        # a failed fit leaves no usable values and is ignored by bootstrap
        for b in range(nband):
            pres[b] = {"flags": BIT}
    nfit = 1 if coadd else len(sb)
    fl = rng.uniform(1, 100, size=nfit)
    fe = rng.uniform(.1, 1, size=nfit)
    ores = dict(flags=0, s2n=rng.uniform(5, 50),
                g=rng.uniform(-.5, .5, size=2),
                g_cov=ff.rand_cov(rng, 2, np.ones(2)*.1),
                T=(rng.uniform(.1, 2) if rng.uniform() < 0.7
                   else rng.uniform(-.5, 0)),
                # PSF-like objects fit with sizes below zero
                T_err=rng.uniform(.01, .1),
                flux=fl if nfit > 1 else fl[0],
                flux_err=fe if nfit > 1 else fe[0])
    if fail == "obj":
        ores = dict(flags=2**5)
    elif fail == "objexc":
        ores = RuntimeError("x")
    elif fail == "bootexc":
        ores = ngmix.gexceptions.BootPSFFailure("x")
    elif fail == "fluxexc":
        ores = ngmix.gexceptions.PSFFluxFailure("x")
    prun = FakePSFRunner(pres)
    orun = FakeObjRunner(ores)
    ctx.describe(model="gauss", coadd=coadd, nband=nband, shear_bands=arg,
                 fail=fail)
    kw = {} if arg is None else {"shear_bands": arg}
    im, wt, pim = ref_coadd(mb, sb)
    if coadd and not np.any(wt > 0):
        return
    ims = [snapshot(np.array(o.image)) for ol in mb for o in ol]
    res = fit_mbobs_gauss(mbobs=mb, bmask_flags=0, rng=rng, obj_runner=orun,
                          psf_runner=prun, coadd=coadd, **kw)
    ctx.equal([snapshot(np.array(o.image)) for ol in mb for o in ol] == ims,
              True, "input-modified")

    def get(n):
        return np.asarray(res["gauss_" + n])[0]
    flags = int(get("flags"))
    ctx.count("gauss_coadd_rows" if coadd else "gauss_rows")
    ctx.equal(np.asarray(res["shear_bands"])[0],
              "".join(str(b) for b in sorted(sb)), "shear-bands-label")
    for call in orun.seen:
        if coadd:
            ctx.require(len(call) == 1, "coadd-not-used", n=len(call))
            ctx.close(call[0][0], im, "coadd-shown-to-fitter", rtol=1e-9,
                      atol=1e-11*max(1, np.abs(im).max()))
            ctx.close(call[0][1], wt, "weight-shown-to-fitter", rtol=1e-9)
        else:
            ctx.require(len(call) == len(sb), "wrong-bands-fit", n=len(call))
            for (ii, ww), b in zip(call, sb):
                ctx.equal(ii, mb[b][0].image, "wrong-band-fit")
                ctx.equal(ww, mb[b][0].weight, "wrong-band-weight")
    if fail in ("psf", "bootexc", "fluxexc"):
        ctx.check(flags & pf.PSF_FAILURE, "psf-failure-not-flagged",
                  flags=flags)
        ctx.count("psf_failures")
    if fail == "objexc":
        ctx.check(flags & pf.OBJ_FAILURE, "object-failure-not-flagged",
                  flags=flags)
        ctx.count("obj_failures")
    if fail == "obj":
        ctx.check(flags & 2**5, "object-failure-not-flagged", flags=flags)
        ctx.count("obj_failures")
    if fail != "none":
        ctx.check(np.all(np.isnan(get("g"))) and np.isnan(get("T"))
                  and np.all(np.isnan(get("band_flux"))),
                  "value-after-failure/" + fail)
        ctx.check(np.all(get("band_flux_flags") != 0),
                  "flux-flag-after-failure")
        ctx.nontrivial("gauss", coadd, nband, len(sb), fail)
        return
    ctx.check(flags == 0, "clean-flagged", flags=flags)
    for k, n in (("s2n", "s2n"), ("g", "g"), ("g_cov", "g_cov"), ("T", "T"),
                 ("T_err", "T_err")):
        ctx.equal(get(k), ores[n], "object-value/" + k)
    ctx.check(get("obj_flags") == 0 and get("T_flags") == 0
              and get("psf_flags") == 0, "part-flagged")
    bf = np.atleast_1d(get("band_flux"))
    be = np.atleast_1d(get("band_flux_err"))
    bflag = np.atleast_1d(get("band_flux_flags"))
    for b in range(nband):
        if b in sb:
            k = sb.index(b) if not coadd else 0
            ctx.equal(bf[b], np.atleast_1d(ores["flux"])[k], "band-flux")
            ctx.equal(be[b], np.atleast_1d(ores["flux_err"])[k],
                      "band-flux-err")
            ctx.check(bflag[b] == 0, "band-flux-flagged")
        else:
            ctx.check(np.isnan(bf[b]) and bflag[b] != 0,
                      "flux-for-band-not-fit", band=b)

    def psf_g(b):
        return e2g(pres[b]["e"]) if pkey == "e" else pres[b]["g"]
    if coadd:
        b = sb[-1] if len(sb) > 1 else sb[0]
        ctx.check(any(np.isclose(get("psf_T"), pres[x]["T"]) for x in sb),
                  "psf-size")
        ctx.check(any(np.allclose(get("psf_g"), psf_g(x)) for x in sb),
                  "psf-shape")
        if len(sb) == 1:
            ctx.close(get("psf_T"), pres[b]["T"], "psf-size")
    else:
        ww = [np.median(mb[b][0].weight[mb[b][0].weight > 0]) for b in sb]
        Ts = np.array([pres[b]["T"] for b in sb])
        gs = np.array([psf_g(b) for b in sb])
        ctx.close(get("psf_T"), np.sum(ww*Ts)/np.sum(ww), "psf-size",
                  rtol=1e-9)
        ctx.close(get("psf_g"),
                  np.sum((ww*Ts)[:, None]*gs, axis=0)/np.sum(ww*Ts),
                  "psf-shape", rtol=1e-9, atol=1e-12)
    ctx.close(get("T_ratio"), get("T")/get("psf_T"), "size-ratio")
    ctx.nontrivial("gauss", coadd, nband, len(sb), fail)


def true_mbobs(rng, nband, n=31, same_psf=False):
    """galaxies whose true (post-PSF subtraction) parameters are known"""
    import galsim
    scale = 0.263
    g1, g2 = rng.uniform(-.25, .25, size=2)
    T = rng.uniform(0.3, 0.8)
    psf_T = rng.uniform(0.2, 0.35, size=nband)
    if same_psf:
        # else the coadded PSF is only that of the coadded object for equal
        # fluxes
        psf_T[:] = psf_T[0]
    flux = rng.uniform(50, 200, size=nband)
    mb = ngmix.MultiBandObsList()
    off = rng.uniform(-.3, .3, size=2)
    cen = (n-1)/2
    jac = ngmix.DiagonalJacobian(row=cen+off[1], col=cen+off[0], scale=scale)
    for b in range(nband):
        # |det|^(1/4) conserving: T of the ellipse is 2*sigma^2*(1+|e|..)
        s2 = T/2*(1-(g1*g1+g2*g2))/(1+(g1*g1+g2*g2))
        gal = galsim.Gaussian(sigma=np.sqrt(s2), flux=flux[b]).shear(
            g1=g1, g2=g2)
        psf = galsim.Gaussian(sigma=np.sqrt(psf_T[b]/2))
        im = galsim.Convolve(gal, psf).drawImage(
            nx=n, ny=n, scale=scale, method='no_pixel',
            offset=galsim.PositionD(off[0], off[1])).array.astype('f8')
        pim = psf.drawImage(nx=23, ny=23, scale=scale,
                            method='no_pixel').array.astype('f8')
        nse = 1e-3*rng.uniform(.5, 2)
        pim += rng.normal(size=pim.shape)*1e-6
        p = ngmix.Observation(
            pim, weight=np.full(pim.shape, 1e12),
            jacobian=ngmix.DiagonalJacobian(row=11, col=11, scale=scale),
            meta={"band": b})
        o = ngmix.Observation(
            im + rng.normal(size=im.shape)*nse,
            weight=np.full(im.shape, 1/nse**2),
            bmask=np.zeros(im.shape, 'i4'), jacobian=jac, psf=p,
            meta={"band": b})
        ol = ngmix.ObsList()
        ol.append(o)
        mb.append(ol)
    return mb, dict(g=np.array([g1, g2]), T=T, psf_T=psf_T, flux=flux)


def fam_truth(ctx, rng, i):
    from metadetect.fitting import fit_mbobs_list_joint
    nband = int(rng.randint(1, 4))
    sb, arg = bands(rng, nband)
    mode = ["gauss", "gausscoadd"][i % 2]
    nobj = 2
    mbs, truth = zip(*[true_mbobs(
        rng, nband, same_psf=mode == "gausscoadd") for _ in range(nobj)])
    kw = {} if arg is None else {"shear_bands": arg}
    ctx.describe(mode=mode, nband=nband, sb=arg)
    res = fit_mbobs_list_joint(
        mbobs_list=list(mbs), fitter_name="gauss", bmask_flags=0,
        rng=np.random.RandomState(i), coadd=mode == "gausscoadd", **kw)
    ctx.require(res.shape == (nobj,), "one-row-per-object", got=res.shape)
    for k in range(nobj):
        t = truth[k]
        if res["gauss_flags"][k] != 0:
            ctx.count("fit_failed")
            continue
        ctx.count("truth_rows")
        ctx.count("real_gauss")
        ctx.close(res["gauss_g"][k], t["g"], "true-shape", rtol=0, atol=0.02)
        ctx.close(res["gauss_T"][k], t["T"], "true-size", rtol=0.05)
        pT = t["psf_T"][sb]
        ctx.check(pT.min()*0.97 <= res["gauss_psf_T"][k] <= pT.max()*1.03,
                  "true-psf-size", got=res["gauss_psf_T"][k], want=pT)
        ctx.close(res["gauss_psf_g"][k], [0, 0], "true-psf-shape", rtol=0,
                  atol=0.01)
        if mode == "gauss":
            bf = np.atleast_1d(res["gauss_band_flux"][k])
            ctx.close(bf[sb], t["flux"][sb], "true-flux", rtol=0.05)
        ctx.nontrivial("truth", mode, nband, len(sb))


def fam_real_am(ctx, rng, i):
    from metadetect.fitting import fit_mbobs_list_joint
    nband = int(rng.randint(1, 4))
    sb, arg = bands(rng, nband)
    mb, _ = gal_mbobs(rng, nband, n=29)
    name = ["am", "admom"][i % 2]
    kw = {} if arg is None else {"shear_bands": arg}
    ctx.describe(name=name, nband=nband, sb=arg)
    if i % 10 == 0:
        ctx.expect_raises(
            lambda: fit_mbobs_list_joint(
                mbobs_list=[mb], fitter_name="nope", bmask_flags=0, rng=rng),
            RuntimeError, "unknown-fitter-accepted")
        ctx.count("bad_name")
        ctx.check(fit_mbobs_list_joint(
            mbobs_list=[], fitter_name=name, bmask_flags=0, rng=rng) is None,
            "empty-list")
        ctx.check(fit_mbobs_list_joint(
            mbobs_list=[], fitter_name="gauss", bmask_flags=0,
            rng=rng) is None, "empty-list")
        ctx.count("empty_list")
    res = fit_mbobs_list_joint(
        mbobs_list=[mb, mb], fitter_name=name, bmask_flags=0,
        rng=np.random.RandomState(i), **kw)
    ctx.require(res.shape == (2,), "one-row-per-object", got=res.shape)
    im, wt, pim = ref_coadd(mb, sb)
    o = mb[sb[0]][0].copy()
    with o.writeable():
        o.image[:, :] = im
        o.weight[:, :] = ff.sym_weight(wt)
    p = o.psf.copy()
    p.set_image(pim)
    run = ngmix.runners.Runner(
        fitter=ngmix.admom.AdmomFitter(rng=np.random.RandomState(9)),
        guesser=ngmix.guessers.GMixPSFGuesser(
            rng=np.random.RandomState(9), ngauss=1, guess_from_moms=True),
        ntry=4)
    ro, rp = run.go(o), run.go(p)
    if ro["flags"] or rp["flags"]:
        return
    for k in range(2):
        if res["am_flags"][k] != 0:
            ctx.count("fit_failed")
            continue
        ctx.count("real_am")
        ctx.close(res["am_g"][k], ro["e"], "measured-shape", rtol=0,
                  atol=3e-3)
        ctx.close(res["am_T"][k], ro["T"], "measured-size", rtol=1e-2)
        ctx.close(res["am_psf_T"][k], rp["T"], "measured-psf-size", rtol=1e-2)
        ctx.close(res["am_psf_g"][k], rp["e"], "measured-psf-shape", rtol=0,
                  atol=3e-3)
        ctx.close(res["am_s2n"][k], ro["s2n"], "measured-s2n", rtol=2e-2)
    ctx.nontrivial("real_am", nband, len(sb))


FAMILIES = {
    "am": (fam_am, 1500, 40000), "gauss": (fam_gauss, 1500, 40000),
    "truth": (fam_truth, 60, 1500), "real_am": (fam_real_am, 80, 1500),
}
_ = common
