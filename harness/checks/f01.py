import numpy as np
import ngmix
import common
import fitfake as ff
from mon import snapshot

PROPERTY = "F01"
RULE = ("band moment results with random, distinct values (with and without "
        "normalisations, 6 or 7 moments, NaN centroid moments) and weight "
        "maps (flat, varying, with holes) x 1-6 bands x ordered shear-band "
        "subsets x regularisation scales x symmetrisation, plus runs with "
        "real moment fitters on drawn galaxies; non-trivial when more than "
        "one shear band or a regularisation is involved; distinct by (nband, "
        "shear subset, norm kind, regularised, symmetrised, weight kinds)")
REQUIRED = ["measurements", "negative_band_fluxes", "multi_band",
            "regularised", "subset_bands",
            "real_measurements", "prepsf", "metamorphic", "list_measurements"]
ASSUMPTIONS = [
    "moment measurement itself is done by ngmix (stand-in here)",
    "the covariance of an ellipticity is the first-order ratio formula of "
    "ngmix.moments",
]
KINDS = ["wmom", "ksigma", "pgauss", "am"]


def row(res, kind, name):
    return np.asarray(res["%s_%s" % (kind, name)])[0]


def compare(ctx, res, kind, want, rtol, **det):
    for name in ("T", "T_err", "g", "g_cov", "s2n", "psf_T", "psf_g",
                 "T_ratio"):
        got = row(res, kind, name)
        if name == "g_cov":
            got = np.diag(got)
            w = np.diag(want[name])
        else:
            w = want[name]
        ctx.close(got, w, "weighted-average/" + name, rtol=rtol, atol=1e-12,
                  **det)


def fam_fake(ctx, rng, i):
    from metadetect.fitting import fit_mbobs_wavg, fit_mbobs_list_wavg
    nband = int(rng.randint(1, 7))
    kind = str(rng.choice(KINDS[:3])) if nband > 1 else str(rng.choice(KINDS))
    nmom = 7 if (kind == "am" or rng.uniform() < 0.2) else 6
    norm = [True, False, "nan"][rng.choice(3, p=[0.6, 0.25, 0.15])]
    nan_cen = kind in ("ksigma", "pgauss") and rng.uniform() < 0.7
    k = int(rng.randint(1, nband+1))
    sb = [int(b) for b in rng.permutation(nband)[:k]]
    arg_sb = sb
    if k == nband and rng.uniform() < 0.5:
        arg_sb = None
    freg = float(rng.choice([0, 0, 0.4, 0.8, 1.2, 3]))
    sym = bool(rng.uniform() < 0.6)
    mbobs = ff.fake_mbobs(rng, nband)
    table = {}

    def weight_of(b):
        w = mbobs[b][0].weight
        if sym:
            w = ff.sym_weight(w)
        return np.median(w[w > 0])

    def norm_of(r):
        return r["sums_norm"] if ff.has_norm(r) else 1.0

    for b in range(nband):
        table[(b, False)] = ff.rand_moments(
            rng, nmom, norm, nan_cen, flux=rng.uniform(20, 300))
        table[(b, True)] = ff.rand_moments(
            rng, nmom, norm, nan_cen, flux=rng.uniform(0.5, 2))
    if len(sb) > 1 and rng.uniform() < 0.15:
        # not seen in one of the bands: a small negative flux, which
        # contributes with its sign
        bneg = sb[rng.randint(len(sb))]
        o = table[(bneg, False)]
        scl = -0.02
        for per in (True, False):
            tot = sum(weight_of(b)*table[(b, False)]["sums"][5]
                      / (norm_of(table[(b, False)]) if per else 1.0)
                      for b in sb if b != bneg)
            own = (weight_of(bneg)*o["sums"][5]
                   / (norm_of(o) if per else 1.0))
            scl = max(scl, -0.02*tot/own)
        o["sums"] = o["sums"]*scl
        o["sums_cov"] = o["sums_cov"]*scl**2
        ctx.count("negative_band_fluxes")
    # covariance so that nothing is flagged
    cls = ff.FakePrePSF if kind in ("ksigma", "pgauss") else ff.FakeFitter
    fitter = cls.__new__(cls)
    ff.FakeFitter.__init__(fitter, table, kind)
    ctx.describe(nband=nband, kind=kind, shear_bands=arg_sb, fwhm_reg=freg,
                 symmetrize=sym, norm=str(norm), nmom=nmom)
    snap = snapshot(mbobs)
    kw = dict(fitter=fitter, bmask_flags=0, fwhm_reg=freg, symmetrize=sym)
    if arg_sb is not None:
        kw["shear_bands"] = arg_sb
    if rng.uniform() < 0.3:
        res = fit_mbobs_list_wavg(mbobs_list=[mbobs, mbobs], **kw)
        ctx.require(res.shape == (2,), "one-row-per-object", got=res.shape)
        ctx.equal(snapshot(res[0:1]) == snapshot(res[1:2]), True,
                  "same-object-different-rows")
        ctx.count("list_measurements")
    else:
        res = fit_mbobs_wavg(mbobs=mbobs, **kw)
    ctx.unchanged(snap, mbobs, "input-modified")
    wg = [weight_of(b) for b in sb]
    want = ff.ref_combine([table[(b, False)] for b in sb],
                          [table[(b, True)] for b in sb], wg, freg)
    ctx.count("measurements")
    ctx.require(row(res, kind, "flags") == 0, "clean-input-flagged",
                flags=int(row(res, kind, "flags")))
    compare(ctx, res, kind, want, 1e-8)
    # fluxes per band are the fitter's, in the order of the input bands
    bf = np.atleast_1d(row(res, kind, "band_flux"))
    be = np.atleast_1d(row(res, kind, "band_flux_err"))
    ctx.equal(bf, [table[(b, False)]["flux"] for b in range(nband)],
              "band-flux")
    ctx.equal(be, [table[(b, False)]["flux_err"] for b in range(nband)],
              "band-flux-err")
    ctx.equal(np.asarray(res["shear_bands"])[0],
              "".join(str(b) for b in sorted(sb)), "shear-bands-label")
    # what the fitter was shown
    seen = set(c[0] for c in fitter.calls)
    ctx.check(seen >= set((b, p) for b in sb for p in (False, True)),
              "band-not-measured")
    for key, w, kwargs in fitter.calls:
        if key[1] and isinstance(fitter, ngmix.prepsfmom.PrePSFMom):
            ctx.check(kwargs.get("no_psf") is True, "psf-deconvolved-by-psf")
            ctx.count("prepsf")
        if not key[1]:
            iw = mbobs[key[0]][0].weight
            ctx.equal(w, ff.sym_weight(iw) if sym else iw,
                      "weights-shown-to-fitter")
    if len(sb) > 1:
        ctx.count("multi_band")
    if freg > 0:
        ctx.count("regularised")
    if len(sb) < nband:
        ctx.count("subset_bands")
    if len(sb) > 1 or freg > 0:
        ctx.nontrivial(nband, tuple(sorted(sb)), norm, freg > 0, sym)
    ctx.sample(dict(ctx.info, want=want))


def gal_mbobs(rng, nband, n=33, wkind="flat", noise=0.02, flux=None,
              psf_sig=None):
    scale = 0.263
    jac = common.make_jacobian(rng, (n, n), "scaled")
    cen = (n-1)/2 + rng.uniform(-0.3, 0.3, size=2)
    jac = ngmix.Jacobian(row=cen[0], col=cen[1], dvdrow=jac.dvdrow,
                         dvdcol=jac.dvdcol, dudrow=jac.dudrow,
                         dudcol=jac.dudcol)
    mbobs = ngmix.MultiBandObsList()
    e1, e2 = rng.uniform(-0.25, 0.25, size=2)
    sig = rng.uniform(1.8, 3.0)
    for b in range(nband):
        F = (flux[b] if flux is not None else rng.uniform(20, 200))
        im = common.gauss_image((n, n), cen[0], cen[1], sig, F, e1, e2)
        nse = noise*rng.uniform(0.5, 2)
        w = np.full((n, n), 1/nse**2)
        if wkind == "holes":
            w[rng.uniform(size=w.shape) < 0.02] = 0
            w[n//2, n//2] = 1/nse**2
        elif wkind == "varying":
            w *= rng.uniform(0.8, 1.2, size=w.shape)
        ps = psf_sig[b] if psf_sig is not None else rng.uniform(1.3, 1.6)
        pj = ngmix.Jacobian(row=10, col=10, dvdrow=jac.dvdrow,
                            dvdcol=jac.dvdcol, dudrow=jac.dudrow,
                            dudcol=jac.dudcol)
        pim = common.gauss_image((21, 21), 10, 10, ps, 1.0,
                                 rng.uniform(-.05, .05), 0.02)
        pim += rng.normal(size=pim.shape)*1e-5
        psf = ngmix.Observation(
            pim, weight=np.full(pim.shape, 1e10), jacobian=pj,
            meta={"band": b})
        obs = ngmix.Observation(
            im + rng.normal(size=im.shape)*nse, weight=w,
            bmask=np.zeros((n, n), 'i4'), jacobian=jac, psf=psf,
            noise=rng.normal(size=im.shape)*nse,
            meta={"band": b})
        ol = ngmix.ObsList()
        ol.append(obs)
        mbobs.append(ol)
    return mbobs, scale


def make_fitter(kind, fwhm=1.2):
    if kind == "wmom":
        return ngmix.gaussmom.GaussMom(fwhm=fwhm)
    if kind == "ksigma":
        return ngmix.prepsfmom.KSigmaMom(fwhm=fwhm*1.7)
    if kind == "pgauss":
        return ngmix.prepsfmom.PGaussMom(fwhm=fwhm*1.7)
    return ngmix.admom.AdmomFitter(rng=np.random.RandomState(3))


def fam_real(ctx, rng, i):
    from metadetect.fitting import fit_mbobs_wavg
    nband = int(rng.randint(1, 5))
    kind = KINDS[i % 3] if nband > 1 else KINDS[i % 4]
    k = int(rng.randint(1, nband+1))
    sb = [int(b) for b in rng.permutation(nband)[:k]]
    freg = float(rng.choice([0, 0.8]))
    sym = bool(rng.uniform() < 0.6)
    wkind = str(rng.choice(["flat", "varying", "holes"]))
    mbobs, _ = gal_mbobs(rng, nband, wkind=wkind)
    ctx.describe(nband=nband, kind=kind, shear_bands=sb, fwhm_reg=freg,
                 symmetrize=sym, wkind=wkind)
    objs, psfs, wg, allres = [], [], [], {}
    fit = make_fitter(kind)
    for b in range(nband):
        o = mbobs[b][0].copy()
        if sym:
            with o.writeable():
                o.weight[:, :] = ff.sym_weight(o.weight)
        kw = {"no_psf": True} if kind in ("ksigma", "pgauss") else {}
        allres[b] = (fit.go(o), fit.go(o.psf, **kw),
                     np.median(o.weight[o.weight > 0]))
    for b in sb:
        objs.append(allres[b][0])
        psfs.append(allres[b][1])
        wg.append(allres[b][2])
    if any(r[0]["flags"] or r[1]["flags"] or r[0]["flux_flags"]
           for r in allres.values()):
        ctx.count("skipped_flagged")
        return
    res = fit_mbobs_wavg(mbobs=mbobs, fitter=make_fitter(kind), bmask_flags=0,
                         shear_bands=sb, fwhm_reg=freg, symmetrize=sym)
    want = ff.ref_combine(objs, psfs, wg, freg)
    ctx.count("measurements")
    ctx.count("real_measurements")
    ctx.require(row(res, kind, "flags") == 0, "clean-input-flagged",
                flags=int(row(res, kind, "flags")))
    # adaptive moments start from a random guess
    compare(ctx, res, kind, want, 1e-7 if kind != "am" else 2e-3)
    ctx.nontrivial("real", kind, nband, tuple(sorted(sb)), freg > 0, sym,
                   wkind)


def fam_meta(ctx, rng, i):
    """metamorphic relations"""
    from metadetect.fitting import fit_mbobs_wavg
    nband = int(rng.randint(2, 5))
    kind = KINDS[i % 3]
    sb = [int(b) for b in rng.permutation(nband)[
        :int(rng.randint(1, nband+1))]]
    freg = float(rng.choice([0, 0.8]))
    mbobs, _ = gal_mbobs(rng, nband)
    kw = dict(bmask_flags=0, fwhm_reg=freg)
    ctx.describe(nband=nband, kind=kind, shear_bands=sb)
    a = fit_mbobs_wavg(mbobs=mbobs, fitter=make_fitter(kind),
                       shear_bands=sb, **kw)
    if row(a, kind, "flags") != 0:
        return
    names = ("T", "g", "psf_T", "psf_g", "s2n", "T_ratio", "T_err")
    # rescaling every image and its errors rescales fluxes only
    f = float(rng.choice([1e-3, 7.0, 1e3]))
    mb2 = ngmix.MultiBandObsList()
    for ol in mbobs:
        o = ol[0].copy()
        o2 = ngmix.Observation(
            o.image*f, weight=o.weight/f**2, bmask=o.bmask,
            jacobian=o.jacobian, psf=o.psf, meta=o.meta)
        l2 = ngmix.ObsList()
        l2.append(o2)
        mb2.append(l2)
    b = fit_mbobs_wavg(mbobs=mb2, fitter=make_fitter(kind), shear_bands=sb,
                       **kw)
    for nme in names:
        ctx.close(row(b, kind, nme), row(a, kind, nme),
                  "flux-scale-changes/" + nme, rtol=1e-6, atol=1e-10)
    ctx.close(row(b, kind, "band_flux"), row(a, kind, "band_flux")*f,
              "band-flux-does-not-scale", rtol=1e-6)
    # order of the shear bands does not matter
    c = fit_mbobs_wavg(mbobs=mbobs, fitter=make_fitter(kind),
                       shear_bands=sb[::-1], **kw)
    for nme in names + ("band_flux",):
        ctx.close(row(c, kind, nme), row(a, kind, nme),
                  "shear-band-order-matters/" + nme, rtol=1e-9, atol=1e-13)
    # bands not used for shear do not matter for the shape
    mb3 = ngmix.MultiBandObsList()
    changed = False
    for bnd, ol in enumerate(mbobs):
        if bnd in sb:
            mb3.append(ol)
        else:
            changed = True
            o = ol[0].copy()
            o.set_image(o.image*rng.uniform(2, 5) + rng.uniform())
            l2 = ngmix.ObsList()
            l2.append(o)
            mb3.append(l2)
    if changed:
        d = fit_mbobs_wavg(mbobs=mb3, fitter=make_fitter(kind),
                           shear_bands=sb, **kw)
        for nme in names:
            ctx.close(row(d, kind, nme), row(a, kind, nme),
                      "non-shear-band-changes/" + nme, rtol=1e-10, atol=0)
        ctx.count("nonshear_band_changed")
    # permuting the bands permutes the fluxes
    perm = [int(p) for p in rng.permutation(nband)]
    mb4 = ngmix.MultiBandObsList()
    for p in perm:
        mb4.append(mbobs[p])
    inv = {p: k for k, p in enumerate(perm)}
    e = fit_mbobs_wavg(mbobs=mb4, fitter=make_fitter(kind),
                       shear_bands=[inv[x] for x in sb], **kw)
    for nme in names:
        ctx.close(row(e, kind, nme), row(a, kind, nme),
                  "band-order-matters/" + nme, rtol=1e-9, atol=1e-13)
    ctx.close(row(e, kind, "band_flux"), row(a, kind, "band_flux")[perm],
              "band-flux-permutation", rtol=1e-12)
    ctx.count("metamorphic")
    ctx.nontrivial("meta", kind, nband, tuple(sorted(sb)), freg > 0)


FAMILIES = {
    "fake": (fam_fake, 2400, 60000),
    "real": (fam_real, 240, 4000),
    "meta": (fam_meta, 120, 2000),
}
