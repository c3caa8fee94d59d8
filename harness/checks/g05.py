import copy
import numpy as np
import ngmix
import gsim
from metadetect import procflags

PROPERTY = "G05"
RULE = ("full driver runs with different PSFs and weights per band x band "
        "combinations x shear types; PSF fits are scripted as a pure function "
        "of the PSF pixels (exact oracle), left to the fitter (tolerance "
        "oracle) or made to fail for a chosen band; every row is one event; "
        "distinct by (nband, combinations, kind of fit, failing band)")
REQUIRED = ["rows", "subset_rows", "sheared_rows", "failed_fit_rows",
            "real_fit_rows", "multi_comb_runs", "g_results",
            "first_failed_rows"]
ASSUMPTIONS = ["the fit of a PSF is the ngmix stand-in's or scripted"]
CASE_LIMIT = 200


def prepare(rng):
    nband = int(rng.randint(1, 5))
    if rng.uniform() < 0.08:
        nband = int(rng.randint(5, 7))
    mbobs = gsim.scene(rng, nband=nband, n=70, ngal=2, mfrac="none")
    for ol in mbobs:
        o = ol[0]
        # peak weight far from the typical one
        o.set_weight(o.weight*rng.uniform(0.3, 3.0))
        with o.writeable():
            k = np.unravel_index(rng.choice(o.weight.size, size=5),
                                 o.weight.shape)
            o.weight[k] *= rng.uniform(1, 4)
    types = ["noshear"] + [str(t) for t in rng.permutation(
        ["1p", "1m", "2p", "2m", "1p_psf", "2m_psf"])[:2]]
    conf = gsim.config(rng, str(rng.choice(["wmom", "pgauss", "am"])),
                       types=types)
    conf["metacal"]["psf"] = str(rng.choice(["fitgauss", "gauss", "dilate"]))
    shear, det = gsim.rand_combs(rng, nband)
    return nband, mbobs, conf, shear, det


def blocks(ctx, res, conf, nband, shear):
    """rows of each combination by their band label"""
    sh = shear if shear is not None else [list(range(nband))]
    for t in conf["metacal"]["types"]:
        rows = res[t]
        if rows is None:
            continue
        for s in sh:
            lab = "".join(str(b) for b in sorted(s))
            m = np.array([str(v) == lab for v in rows["shear_bands"]])
            if np.any(m):
                yield t, s, rows[m]


def fam_scripted(ctx, rng, i):
    nband, mbobs, conf, shear, det = prepare(rng)
    orig = gsim.planes(mbobs)
    use_g = bool(rng.uniform() < 0.3)
    ctx.describe(nband=nband, conf=conf, shear=shear, det=det, g=use_g)
    with gsim.fault(psf_fit=gsim.scripted_psf_fit(use_g=use_g)):
        res, log = gsim.run(copy.deepcopy(conf), mbobs,
                            shear_band_combs=shear, det_band_combs=det)
    ctx.require(res is not None, "no-result")
    for t, s, rows in blocks(ctx, res, conf, nband, shear):
        g, T = gsim.ref_psfrec(orig, s)
        w = dict(t=t, shear=s)
        ctx.check(np.all(rows["psfrec_flags"] == 0), "good-psf-flagged", **w)
        ctx.close(rows["psfrec_g"], np.tile(g, (rows.size, 1)), "psfrec-g",
                  rtol=1e-9, atol=1e-12, **w)
        ctx.close(rows["psfrec_T"], np.full(rows.size, T), "psfrec-T",
                  rtol=1e-9, **w)
        note(ctx, rows, t, s, nband)
        if use_g:
            ctx.count("g_results", rows.size)
    if shear is not None and len(shear) > 1:
        ctx.count("multi_comb_runs")
    ctx.nontrivial("scripted", nband, shear, use_g)
    ctx.sample(ctx.info)


def note(ctx, rows, t, s, nband):
    ctx.count("rows", rows.size)
    if len(s) < nband:
        ctx.count("subset_rows", rows.size)
    if t != "noshear":
        ctx.count("sheared_rows", rows.size)


def fam_fail(ctx, rng, i):
    nband, mbobs, conf, shear, det = prepare(rng)
    orig = gsim.planes(mbobs)
    bad = int(rng.randint(nband))
    ctx.describe(nband=nband, conf=conf, shear=shear, det=det, bad=bad)
    with gsim.fault(psf_fit=gsim.scripted_psf_fit(
            fail=[mbobs[bad][0].psf])):
        res, log = gsim.run(copy.deepcopy(conf), mbobs,
                            shear_band_combs=shear, det_band_combs=det)
    ctx.require(res is not None, "failed-psf-fit-loses-all")
    for t, s, rows in blocks(ctx, res, conf, nband, shear):
        w = dict(t=t, shear=s, bad=bad)
        fl = (rows["psfrec_flags"] & procflags.PSF_FAILURE) != 0
        nan = (np.isnan(rows["psfrec_T"])
               & np.all(np.isnan(rows["psfrec_g"]), axis=1))
        if bad in s:
            ctx.check(np.all(fl), "failed-psf-not-flagged", **w)
            ctx.check(np.all(nan), "failed-psf-has-values", **w)
            ctx.count("failed_fit_rows", rows.size)
            if s[0] == bad:
                ctx.count("first_failed_rows", rows.size)
        else:
            # a failure elsewhere may flag these rows but not change values
            ctx.check(np.all(fl == nan), "flags-and-values-disagree", **w)
            g, T = gsim.ref_psfrec(orig, s)
            ctx.close(rows["psfrec_T"][~fl], np.full(np.sum(~fl), T),
                      "psfrec-T", rtol=1e-9, **w)
        ctx.count("rows", rows.size)
    ctx.nontrivial("fail", nband, shear, bad)


def fam_real(ctx, rng, i):
    nband, mbobs, conf, shear, det = prepare(rng)
    orig = gsim.planes(mbobs)
    ctx.describe(nband=nband, conf=conf, shear=shear, det=det)
    res, log = gsim.run(copy.deepcopy(conf), mbobs,
                        shear_band_combs=shear, det_band_combs=det)
    ctx.require(res is not None, "no-result")
    fits = []
    for ol in orig:
        r = np.random.RandomState(int(rng.randint(2**30)))
        f = ngmix.admom.AdmomFitter(rng=r)
        q = ngmix.guessers.GMixPSFGuesser(rng=r, ngauss=1,
                                          guess_from_moms=True)
        out = ngmix.runners.run_fitter(ol[0].psf, f, guesser=q, ntry=10)
        if out["flags"]:
            return
        fits.append(out)
    for t, s, rows in blocks(ctx, res, conf, nband, shear):
        w = np.array([orig[b][0].weight.max() for b in s])
        g = sum(a*np.array(fits[b]["e"]) for a, b in zip(w, s))/w.sum()
        T = sum(a*fits[b]["T"] for a, b in zip(w, s))/w.sum()
        kw = dict(t=t, shear=s)
        ctx.check(np.all(rows["psfrec_flags"] == 0), "good-psf-flagged", **kw)
        ctx.close(rows["psfrec_g"], np.tile(g, (rows.size, 1)), "psfrec-g",
                  rtol=0, atol=2e-3, **kw)
        ctx.close(rows["psfrec_T"], np.full(rows.size, T), "psfrec-T",
                  rtol=1e-2, **kw)
        ctx.count("real_fit_rows", rows.size)
        note(ctx, rows, t, s, nband)
    ctx.nontrivial("real", nband, shear)


FAMILIES = {"scripted": (fam_scripted, 80, 1500),
            "fail": (fam_fail, 40, 500), "real": (fam_real, 40, 500)}
