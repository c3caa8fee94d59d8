import numpy as np
import ngmix
import fitfake as ff

PROPERTY = "F02"
RULE = ("multi-band measurements in which each band independently is healthy "
        "or fails in one way (missing, zero weight, masked stamp, no moments "
        "for the object or the PSF, non-positive flux, bad variance, bad "
        "size, failed flux); every produced row is one event; non-trivial "
        "when something failed; distinct by (failure kinds in shear bands, "
        "in other bands, model)")
REQUIRED = ["rows", "rows_flagged", "rows_clean", "failed_shear_band",
            "failed_other_band", "failed_psf", "stamp_masked",
            "mask_bits_not_selected", "joint_rows", "joint_flagged",
            "joint_clean", "rows_without_shear_band",
            "negative_size_regularised", "zero_norm", "two_reasons",
            "flux_negative_moment_positive",
            "joint_masked_without_weight",
            "joint_rim_masked", "unknown_shear_band"]
ASSUMPTIONS = [
    "which individual bits ngmix itself raises is not specified beyond being "
    "non-zero",
]
FAILS = ["ok", "ok", "ok", "missing", "zero", "edge", "nomom", "nopsfmom",
         "badflux", "badT", "badvar", "psfT", "psfzero", "fluxflag",
         "otherbit", "multi", "smallT", "objnorm", "badboth", "negflux",
         "negflux"]
BITS = [2**0, 2**1, 2**6, 2**6 + 2**0, 2**8]


def build(rng, nband, kind, force_ok=False):
    import metadetect.procflags as pf  # noqa
    norm = bool(rng.uniform() < 0.6)
    fails = [("ok" if force_ok or rng.uniform() < 0.45
              else str(rng.choice(FAILS))) for _ in range(nband)]
    fails = [f if f != "multi" else "ok" for f in fails]
    if rng.uniform() < 0.05 and not force_ok:
        fails = ["smallT"]*nband
    wk = ["zero" if f == "zero" else "flat" if rng.uniform() < 0.5 else
          "varying" for f in fails]
    edge, other = 2**30, 2**7
    bm = [edge if f == "edge" else other if f == "otherbit" else 0
          for f in fails]
    mbobs = ff.fake_mbobs(rng, nband, wkinds=wk, bmask=bm)
    table = {}
    for b, f in enumerate(fails):
        o = ff.rand_moments(rng, 6, norm, False, flux=rng.uniform(20, 300))
        p = ff.rand_moments(rng, 6, norm, False, flux=rng.uniform(0.5, 2))
        if f == "nomom":
            for k in ("sums", "sums_cov"):
                o.pop(k)
            if rng.uniform() < 0.5:
                for k in ("flux", "flux_err", "flux_flags"):
                    o.pop(k)
        elif f == "nopsfmom":
            p.pop("sums" if rng.uniform() < 0.5 else "sums_cov")
        elif f == "badflux":
            o["sums"][5] = -abs(o["sums"][5])*1e4
            o["flags"] = ngmix.flags.NONPOS_FLUX
        elif f == "negflux":
            # may be outweighed by the others, in the moments, in the flux
            # (which is not normalised), or in both
            o["sums"][5] = -abs(o["sums"][5])*10**rng.uniform(-1.5, 1.5)
            o["flags"] = ngmix.flags.NONPOS_FLUX
        elif f == "badboth":
            # neither a flux nor a variance
            o["sums"][5] = -abs(o["sums"][5])*1e4
            o["sums_cov"][:] = 0
            for k in (3, 4, 5):
                o["sums_cov"][k, k] = -1e9
            o["flags"] = int(rng.choice(BITS))
        elif f == "badT":
            o["sums"][4] = -abs(o["sums"][4])*1e4
            o["flags"] = ngmix.flags.NONPOS_SIZE
        elif f == "smallT":
            # negative, but positive once regularised
            o["sums"][4] = -rng.uniform(0.005, 0.1)*abs(o["sums"][5])
            o["flags"] = ngmix.flags.NONPOS_SIZE
        elif f == "badvar":
            o["sums_cov"][:] = 0
            o["sums_cov"][3, 3] = -1e9
            o["sums_cov"][4, 4] = -1e9
            o["sums_cov"][5, 5] = -1e9
            # the fitter says so in its flags, not in those of the flux
            o["flags"] = int(rng.choice(BITS))
        elif f == "psfT":
            p["sums"][4] = -abs(p["sums"][4])*1e6
        elif f == "psfzero":
            p["sums"][5] = 0.0
        elif f == "objnorm":
            # nothing under the moments' aperture
            if norm:
                o["sums_norm"] = np.float64(0)
        elif f == "fluxflag":
            o["flux_flags"] = 2**6
            o["flux_err"] = np.nan
        table[(b, False)] = o
        table[(b, True)] = p
    if rng.uniform() < 0.2:
        # the units are anybody's choice
        u = 10**rng.uniform(-7, 7)
        for r in table.values():
            for k, v in (("sums", u), ("sums_cov", u*u), ("flux", u),
                         ("flux_err", u)):
                if k in r:
                    r[k] = r[k]*v
    if any(f == "missing" for f in fails):
        new = ngmix.MultiBandObsList()
        for b, f in enumerate(fails):
            new.append(ngmix.ObsList() if f == "missing" else mbobs[b])
        mbobs = new
    return mbobs, table, fails, edge


def fam_wavg(ctx, rng, i):
    from metadetect.fitting import fit_mbobs_wavg
    from metadetect import procflags as pf
    nband = int(rng.randint(1, 5))
    kind = str(rng.choice(["wmom", "ksigma", "pgauss"]))
    mbobs, table, fails, edge = build(rng, nband, kind, rng.uniform() < 0.15)
    k = int(rng.randint(1, nband+1))
    sb = [int(b) for b in rng.permutation(nband)[:k]]
    sel = edge if rng.uniform() < 0.8 else 0
    freg = float(rng.choice([0, 0.8]))
    ctx.describe(fails=fails, shear_bands=sb, kind=kind, bmask_flags=sel)
    fitter = ff.FakeFitter(table, kind)
    sym = bool(rng.uniform() < 0.5)
    with np.errstate(all='ignore'):
        res = fit_mbobs_wavg(
            mbobs=mbobs, fitter=fitter, bmask_flags=sel, shear_bands=sb,
            fwhm_reg=freg, symmetrize=sym)
    ctx.require(res.shape == (1,), "one-row", got=res.shape)

    def get(name):
        return np.asarray(res["%s_%s" % (kind, name)])[0]
    flags = int(get("flags"))
    oflags = int(get("obj_flags"))
    pflags = int(get("psf_flags"))
    ff_ = np.atleast_1d(get("band_flux_flags"))
    ctx.count("rows")
    # a stamp with a masked pixel is a failure only when the bit is selected
    eff = ["ok" if f == "otherbit" or (f == "edge" and not sel) else f
           for f in fails]
    if any(f == "otherbit" for f in fails):
        ctx.count("mask_bits_not_selected")
    if any(f == "edge" for f in eff):
        ctx.count("stamp_masked")
    if "sums_norm" not in table.get((0, False), {}):
        eff = ["ok" if f == "objnorm" else f for f in eff]
    basic = {"missing": pf.MISSING_BAND, "zero": pf.ZERO_WEIGHTS,
             "edge": pf.EDGE_HIT, "nomom": pf.NOMOMENTS_FAILURE}
    shear_fail = [eff[b] for b in sb if eff[b] != "ok"]
    other_fail = [eff[b] for b in range(nband)
                  if b not in sb and eff[b] != "ok"]
    # what each failure means
    hard_obj = [f for f in shear_fail if f in basic]
    hard_psf = hard_obj + [f for f in shear_fail if f in (
        "nopsfmom", "psfzero")]
    for f in hard_obj:
        ctx.check(oflags & basic[f], "shear-band-failure-not-in-object-flags/"
                  + f, oflags=oflags)
        ctx.check(pflags & basic[f], "shear-band-failure-not-in-psf-flags/"
                  + f, pflags=pflags)
    if "nopsfmom" in shear_fail:
        ctx.check(pflags & pf.NOMOMENTS_FAILURE, "psf-failure-not-flagged")
        ctx.count("failed_psf")
    if "psfzero" in shear_fail:
        ctx.check(pflags & pf.ZERO_WEIGHTS, "psf-zero-flux-not-flagged")
        ctx.count("failed_psf")
    if "objnorm" in shear_fail:
        ctx.check(pflags & pf.ZERO_WEIGHTS, "zero-norm-not-flagged/psf")
        ctx.check(oflags != 0, "zero-norm-not-flagged/object")
        ctx.count("zero_norm")
    if pflags != 0:
        ctx.check(oflags & pf.PSF_FAILURE,
                  "psf-failure-missing-from-object-flags", oflags=oflags)
    if hard_obj:
        ctx.check(np.all(np.isnan(get("g"))) and np.isnan(get("T"))
                  and np.isnan(get("s2n")),
                  "value-reported-for-failed-shear-band", g=get("g"))
    if hard_psf:
        ctx.check(np.isnan(get("psf_T")) and np.isnan(get("T_ratio")),
                  "psf-value-reported-for-failed-psf", got=get("psf_T"))
    if pflags != 0:
        ctx.check(np.isnan(get("T_ratio")), "size-ratio-to-failed-psf",
                  got=get("T_ratio"))
    # combined moments that cannot be used
    if not hard_obj and "objnorm" not in shear_fail:
        wg = []
        for b in sb:
            w = mbobs[b][0].weight
            w = ff.sym_weight(w) if sym else w
            wg.append(np.median(w[w > 0]))
        M = np.zeros(6)
        V = np.zeros(6)
        fl = fv = 0.0
        for b, w in zip(sb, wg):
            o = table[(b, False)]
            nrm = o.get("sums_norm", 1.0)
            M += w*o["sums"]/nrm
            V += (w/nrm)**2*np.diag(o["sums_cov"])
            fl += w*o["sums"][5]
            fv += w*w*o["sums_cov"][5, 5]
        bad = M[4] <= 0 or M[5] <= 0 or fl <= 0 or fv <= 0 or \
            np.any(V[2:] <= 0)
        if bad:
            ctx.check(oflags != 0, "unusable-moments-not-flagged",
                      M=M, V=V)
            ctx.count("unusable_moments")
            # each reason is there, one does not displace the other
            if fl <= 0:
                ctx.check(oflags & ngmix.flags.NONPOS_FLUX,
                          "reason-lost/flux", oflags=oflags)
            if fv <= 0:
                ctx.check(oflags & ngmix.flags.NONPOS_VAR,
                          "reason-lost/variance", oflags=oflags)
            if fl <= 0 and fv <= 0:
                ctx.count("two_reasons")
            if fl <= 0 < M[5]:
                ctx.count("flux_negative_moment_positive")
            if freg and -0.2 < M[4]/M[5] <= 0 < M[5]:
                ctx.count("negative_size_regularised")
        elif pflags == 0:
            ctx.check(oflags == 0, "usable-moments-flagged", oflags=oflags,
                      M=M, V=V)
    for b, f in enumerate(eff):
        if f in ("missing", "zero", "edge"):
            ctx.check(int(ff_[b]) & basic[f], "band-flux-failure-not-flagged/"
                      + f, got=int(ff_[b]))
            ctx.check(np.isnan(np.atleast_1d(get("band_flux"))[b]),
                      "flux-reported-for-failed-band")
        elif f == "nomom" and "flux" not in table[(b, False)]:
            ctx.check(int(ff_[b]) & pf.NOMOMENTS_FAILURE,
                      "band-flux-failure-not-flagged/nomom")
        elif f == "fluxflag":
            ctx.check(int(ff_[b]) & 2**6, "fitter-flux-flag-lost")
        else:
            ctx.check(ff_[b] == 0, "healthy-band-flux-flagged",
                      band=b, got=int(ff_[b]))
            ctx.equal(np.atleast_1d(get("band_flux"))[b],
                      table[(b, False)]["flux"], "band-flux-value")
    # the summary flag is non-zero exactly when some part failed
    want_any = (oflags | pflags | int(np.bitwise_or.reduce(ff_))) != 0
    ctx.check((flags != 0) == want_any, "summary-flag", flags=flags,
              oflags=oflags, pflags=pflags, flux=ff_)
    for part, nm in ((oflags, "obj"), (int(np.bitwise_or.reduce(ff_)),
                                       "flux")):
        ctx.check(flags & part == part, "summary-flag-loses-bits/" + nm)
    ctx.check(not flags & 2**31 and flags >= 0 and flags < 2**31,
              "flag-out-of-range", flags=flags)
    tflags = int(get("T_flags"))
    if tflags != 0:
        ctx.check(flags != 0 and oflags != 0, "size-failure-silent",
                  T_flags=tflags, flags=flags, obj_flags=oflags)
    elif "objnorm" not in shear_fail or flags == 0:
        ctx.check(np.isfinite(get("T")), "size-missing-unflagged",
                  T=get("T"))
    if flags == 0:
        ctx.count("rows_clean")
        for nme in ("g", "T", "T_err", "s2n", "psf_g", "psf_T", "T_ratio",
                    "band_flux", "band_flux_err"):
            ctx.check(np.all(np.isfinite(get(nme))),
                      "clean-row-with-non-finite-value/" + nme)
    else:
        ctx.count("rows_flagged")
    if all(f == "ok" for f in eff):
        ctx.check(flags == 0, "clean-input-flagged", flags=flags)
    if shear_fail:
        ctx.count("failed_shear_band")
    if other_fail:
        ctx.count("failed_other_band")
        if not shear_fail:
            # the shape does not depend on bands not used for shear
            ctx.check(oflags == 0 and pflags == 0,
                      "other-band-failure-flags-shape", oflags=oflags,
                      pflags=pflags)
            ctx.check(np.all(np.isfinite(get("g"))),
                      "other-band-failure-loses-shape")
    if shear_fail or other_fail:
        ctx.nontrivial("wavg", kind, tuple(sorted(set(shear_fail))),
                       tuple(sorted(set(other_fail))))
    ctx.sample(dict(ctx.info, flags=flags, oflags=oflags, pflags=pflags))


def fam_joint(ctx, rng, i):
    """adaptive moments and Gaussian fits with failing inputs"""
    from metadetect.fitting import fit_mbobs_admom, fit_mbobs_gauss
    from metadetect import procflags as pf
    import checks.f01 as f01
    model = ["am", "gauss", "gausscoadd"][i % 3]
    nband = int(rng.randint(1, 4))
    mbobs, _ = f01.gal_mbobs(rng, nband, n=25)
    k = int(rng.randint(1, nband+1))
    sb = [int(b) for b in rng.permutation(nband)[:k]]
    edge = 2**30
    fails = []
    new = ngmix.MultiBandObsList()
    for b in range(nband):
        f = "ok" if rng.uniform() < 0.6 else str(rng.choice(
            ["missing", "zero", "edge", "multi", "otherbit", "negative",
             "badpsf"]))
        fails.append(f)
        ol = ngmix.ObsList()
        o = mbobs[b][0]
        if f == "zero":
            o = ngmix.Observation(
                o.image, weight=o.weight*0, bmask=o.bmask,
                jacobian=o.jacobian, psf=o.psf, meta=o.meta,
                noise=o.noise,
                ignore_zero_weight=False)
        elif f in ("edge", "otherbit"):
            o = o.copy()
            bm = o.bmask.copy()
            r, c = rng.randint(bm.shape[0]), rng.randint(bm.shape[1])
            if rng.uniform() < 0.5:
                # only the very rim of the stamp
                if rng.uniform() < 0.5:
                    r = int(rng.choice([0, bm.shape[0]-1]))
                else:
                    c = int(rng.choice([0, bm.shape[1]-1]))
                if f == "edge":
                    ctx.count("joint_rim_masked")
            bm[r, c] = edge if f == "edge" else 2**7
            o.set_bmask(bm)
            if rng.uniform() < 0.5:
                # masked pixels often carry no weight
                wt = o.weight.copy()
                wt[r, c] = 0
                o.set_weight(wt)
                if f == "edge":
                    ctx.count("joint_masked_without_weight")
        elif f == "negative":
            o = o.copy()
            o.set_image(-o.image*5)
        elif f == "badpsf":
            o = o.copy()
            p = o.psf.copy()
            p.set_image(-p.image)
            o.set_psf(p)
        if f != "missing":
            ol.append(o)
        if f == "multi":
            ol.append(o.copy())
        new.append(ol)
    if i % 16 == 5:
        # a shear band there are no data for
        sb = [b for b in sb if rng.uniform() < 0.5]
        sb.insert(rng.randint(len(sb) + 1), nband + int(rng.randint(0, 3)))
    outside = any(b >= nband for b in sb)
    nshear_neg = any(fails[b] in ("negative", "badpsf") for b in sb
                     if b < nband)
    ctx.describe(model=model, fails=fails, shear_bands=sb)
    kw = dict(mbobs=new, bmask_flags=edge,
              rng=np.random.RandomState(rng.randint(2**31)), shear_bands=sb)
    with np.errstate(all='ignore'):
        if model == "am":
            res = fit_mbobs_admom(**kw)
            name = "am"
        else:
            res = fit_mbobs_gauss(coadd=model == "gausscoadd", **kw)
            name = "gauss"
    ctx.require(res.shape == (1,), "one-row", got=res.shape)

    def get(n):
        return np.asarray(res["%s_%s" % (name, n)])[0]
    flags = int(get("flags"))
    ctx.count("joint_rows")
    want = {"missing": pf.MISSING_BAND, "zero": pf.ZERO_WEIGHTS,
            "edge": pf.EDGE_HIT, "multi": pf.INCONSISTENT_BANDS}
    basic = [f for f in fails if f in want]
    if outside:
        basic = basic + ["outside"]
        want["outside"] = (pf.INCONSISTENT_BANDS if len(basic) == 1
                           else 2**31 - 1)
        ctx.count("unknown_shear_band")
    for f in basic:
        ctx.check(flags & want[f], "failure-not-flagged/%s/%s" % (model, f),
                  flags=flags)
    if basic:
        ctx.check(np.all(np.isnan(get("g"))) and np.isnan(get("T")),
                  "value-for-unusable-input/" + model)
    for nme in ("obj_flags", "T_flags", "psf_flags"):
        if int(get(nme)) != 0:
            ctx.check(flags != 0, "failure-silent/%s/%s" % (model, nme),
                      got=int(get(nme)))
    if not basic and flags != 0:
        # attempted: the summary carries the parts it reports
        for nme in ("obj_flags", "psf_flags"):
            if not int(get(nme)) & pf.NO_ATTEMPT:
                ctx.check(flags & int(get(nme)) == int(get(nme)),
                          "summary-loses-bits/%s/%s" % (model, nme),
                          flags=flags, part=int(get(nme)))
    if flags == 0:
        ctx.count("joint_clean")
        for nme in ("g", "T", "T_err", "s2n", "psf_g", "psf_T", "T_ratio"):
            ctx.check(np.all(np.isfinite(get(nme))),
                      "clean-row-with-non-finite-value/%s/%s" % (model, nme))
    else:
        ctx.count("joint_flagged")
    if not basic and not nshear_neg:
        # a fit may fail to converge from one random guess
        retry = 0
        while flags != 0 and retry < 5:
            retry += 1
            kw["rng"] = np.random.RandomState(retry)
            if model == "am":
                r2 = fit_mbobs_admom(**kw)
            else:
                r2 = fit_mbobs_gauss(coadd=model == "gausscoadd", **kw)
            ctx.count("joint_retries")
            if np.asarray(r2[name + "_flags"])[0] == 0:
                break
        else:
            ctx.check(flags == 0, "clean-input-flagged/" + model,
                      flags=flags)
    if model == "am" and not basic and any(
            fails[b] == "badpsf" for b in sb) and len(sb) == 1:
        ctx.check(flags != 0 and int(get("psf_flags")) != 0,
                  "psf-failure-not-flagged", flags=flags)
        ctx.check(np.isnan(get("psf_T")), "psf-value-reported")
    if basic or nshear_neg:
        ctx.nontrivial(model, tuple(sorted(set(fails))), len(sb))


def fam_noshear(ctx, rng, i):
    """no band can be used for the shape: nothing is silently reported"""
    from metadetect.fitting import fit_mbobs_wavg
    from metadetect import procflags as pf
    kind = str(rng.choice(["wmom", "ksigma", "pgauss"]))
    how = ["empty-list", "outside", "no-bands"][i % 3]
    nband = 0 if how == "no-bands" else int(rng.randint(1, 4))
    if nband:
        mbobs, table, fails, edge = build(rng, nband, kind)
    else:
        mbobs, table, fails, edge = ngmix.MultiBandObsList(), {}, [], 2**30
    sb = [] if how != "outside" else [nband + int(rng.randint(0, 3))]
    if how == "no-bands" and rng.uniform() < 0.5:
        sb = None
    ctx.describe(how=how, nband=nband, fails=fails, kind=kind)
    with np.errstate(all='ignore'):
        res = fit_mbobs_wavg(
            mbobs=mbobs, fitter=ff.FakeFitter(table, kind), bmask_flags=edge,
            shear_bands=sb, fwhm_reg=float(rng.choice([0, 0.8])))
    ctx.require(res.shape == (1,), "one-row", got=res.shape)
    ctx.count("rows_without_shear_band")
    ctx.nontrivial("noshear", how, nband, kind)
    for nme in ("flags", "obj_flags", "psf_flags", "band_flux_flags"):
        ctx.check(np.all(np.asarray(res["%s_%s" % (kind, nme)])[0]
                         & pf.MISSING_BAND), "not-flagged/" + nme)
    ctx.check(int(res["%s_obj_flags" % kind][0]) & pf.PSF_FAILURE,
              "psf-failure-missing-from-object-flags")
    for nme in ("g", "g_cov", "T", "T_err", "s2n", "psf_g", "psf_T",
                "T_ratio", "band_flux", "band_flux_err"):
        key = "%s_%s" % (kind, nme)
        if key in res.dtype.names:
            ctx.check(np.all(np.isnan(res[key])), "value-reported/" + nme,
                      got=res[key])


FAMILIES = {"noshear": (fam_noshear, 150, 1500), "wavg": (fam_wavg, 4000, 80000), "joint": (fam_joint, 500, 6000)}
