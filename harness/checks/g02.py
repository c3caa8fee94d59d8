import copy
import numpy as np
import gsim
import common

PROPERTY = "G02"
RULE = ("full driver runs on small scenes with random mask planes, masked "
        "fractions (none, zero, random, blobs), region sizes, shear steps, "
        "world transforms, band combinations; every row is one event whose "
        "position, mask and masked-fraction columns are recomputed; distinct "
        "by (nband, mask regions, mfrac kind, types, combinations)")
REQUIRED = ["rows", "sheared_rows", "region_rows", "ormask_region_rows",
            "nonzero_bmask", "nonzero_ormask", "nonzero_mfrac",
            "zero_mfrac_rows", "border_rows", "moved_pixel_rows",
            "subset_rows", "nonsquare_images", "few_masked",
            "patchy_weights", "several_fitters",
            "mask_differs_between_positions"]
ASSUMPTIONS = [
    "positions are stored in single precision; a position within 1e-4 of a "
    "pixel boundary does not decide the mask column",
    "the masked fraction uses the apertures and stamps of D04",
]
CASE_LIMIT = 200


def near_half(v):
    return abs((v % 1.0) - 0.5) < 2e-4


def region_sizes(conf):
    mr = conf.get("mask_region", 1)
    orr = conf.get("ormask_region", 1)
    bm = mr if mr > 1 else 1
    om = orr if orr > 1 else bm
    return bm, om


def fam_cols(ctx, rng, i):
    nband = int(rng.choice([1, 2, 3, 1, 2, 3, 4, 4]))
    if rng.uniform() < 0.05:
        nband = int(rng.randint(5, 7))
    # some galaxies near the border
    kind = str(rng.choice(["none", "zero", "random", "blob", "few",
                           "faint"]))
    wk = "patchy" if rng.uniform() < 0.25 else None
    ctx.count("patchy_weights", int(wk is not None))
    mbobs = gsim.scene(rng, nband=nband, mfrac=kind, vary_psf_dim=True,
                       wkind=wk)
    ny, nx = mbobs[0][0].image.shape
    ctx.count("nonsquare_images", int(nx != ny))
    jac = mbobs[0][0].jacobian
    if rng.uniform() < 0.7:
        # one source against the border
        r, c = [(rng.uniform(0, 4), rng.uniform(10, nx-10)),
                (rng.uniform(10, ny-10), rng.uniform(0, 4)),
                (ny-1-rng.uniform(0, 4), rng.uniform(10, nx-10)),
                (rng.uniform(10, ny-10), nx-1-rng.uniform(0, 4))][
                    rng.randint(4)]
        for ol in mbobs:
            o = ol[0]
            o.set_image(o.image + common.gauss_image(
                o.image.shape, r, c, 2.0, 400.))
    for ol in mbobs:
        # dense masks so that columns are rarely trivially zero
        o = ol[0]
        with o.writeable():
            for a in (o.bmask, o.ormask):
                k = rng.uniform(size=a.shape) < rng.choice([0.02, 0.3])
                a[k] |= 2**rng.randint(0, 29, size=k.sum()).astype('i4')
    pool = ["noshear", "1p", "1m", "2p", "2m", "1p_psf", "2m_psf"]
    types = [str(t) for t in rng.permutation(pool)[:int(rng.randint(1, 4))]]
    model = str(rng.choice(["wmom", "pgauss", "ksigma", "am", "gauss"]))
    if kind == "none" and rng.uniform() < 0.7:
        model = "wmom"
    conf = gsim.config(rng, model, types=types)
    first = conf
    if rng.uniform() < 0.25:
        # several fitters: the aperture is that of the first
        first = gsim.fitter_conf(rng, model)
        second = gsim.fitter_conf(
            rng, str(rng.choice([m for m in ("wmom", "pgauss", "ksigma")
                                 if m != model])), plain=True)
        conf = gsim.config(rng, [first, second], types=types)
        ctx.count("several_fitters")
    if rng.uniform() < 0.6:
        conf["mask_region"] = int(rng.choice([0, 1, 2, 3, 5, 15]))
    if rng.uniform() < 0.4:
        conf["ormask_region"] = int(rng.choice([0, 1, 2, 4, 9]))
    if rng.uniform() < 0.5:
        conf["metacal"]["step"] = float(rng.choice([0.005, 0.02, 0.05]))
    if rng.uniform() < 0.4:
        conf["mfrac_fwhm"] = float(rng.choice([1.0, 2.0, 3.0]))
    if rng.uniform() < 0.3:
        conf["nodet_flags"] = int(2**rng.randint(0, 20))
    nodet = conf.get("nodet_flags", 0)
    step = conf["metacal"].get("step", 0.01)
    shear, det = gsim.rand_combs(rng, nband)
    ctx.describe(nband=nband, conf=conf, shear=shear, det=det, mfrac=kind)
    kw = {}
    if shear is not None:
        kw["shear_band_combs"] = shear
    if det is not None:
        kw["det_band_combs"] = det
    # the driver must use the original planes, not those at the end
    orig = gsim.planes(mbobs)
    res, log = gsim.run(copy.deepcopy(conf), mbobs, **kw)
    if res is None:
        allm = any(np.all(ol[0].bmask & nodet) for ol in orig)
        ctx.require(allm, "no-result")
        return
    sh, de = gsim.norm_combs(nband, shear, det)
    if "fwhm" in first.get("weight", {}):
        fwhm = first["weight"]["fwhm"]
    else:
        fwhm = 1.2
    fwhm = conf.get("mfrac_fwhm", fwhm)
    bmr, omr = region_sizes(conf)
    dims = orig[0][0].image.shape
    for t in types:
        rows = res[t]
        k = 0
        for s, d in zip(sh, de):
            e, bs = gsim.det_rows(log, log.metacal[0]["odict"][t], d, nodet,
                                  conf)
            ctx.require(e is not None, "detection-not-found", t=t, det=d)
            m = e["cat"].size
            ctx.require(m == 0 or (rows is not None and rows.size >= k+m),
                        "rows-missing", t=t)
            if m == 0:
                continue
            check_block(ctx, rows[k:k+m], e["cat"], bs, t, s, d, orig, jac,
                        dims, step, fwhm, bmr, omr, kind)
            k += m
        ctx.check((0 if rows is None else rows.size) == k, "extra-rows")
    ctx.nontrivial(nband, bmr, omr, kind, tuple(types), shear, det, model)
    ctx.sample(ctx.info)


def check_block(ctx, rows, cat, bs, t, s, d, orig, jac, dims, step, fwhm,
                bmr, omr, kind):
    w = dict(t=t, shear=s, det=d)
    ctx.equal(rows["sx_row"], cat["y"].astype('f4'), "row-position", **w)
    ctx.equal(rows["sx_col"], cat["x"].astype('f4'), "col-position", **w)
    r, c = rows["sx_row"].astype('f8'), rows["sx_col"].astype('f8')
    ur, uc = gsim.unshear(r, c, t, jac, dims, step)
    ctx.close(rows["sx_row_noshear"], ur, "row-noshear", rtol=0, atol=2e-4,
              **w)
    ctx.close(rows["sx_col_noshear"], uc, "col-noshear", rtol=0, atol=2e-4,
              **w)
    om = np.zeros(dims, 'i8')
    bm = np.zeros(dims, 'i8')
    for b in s:
        om |= orig[b][0].ormask
        bm |= orig[b][0].bmask
    for nm, mask, reg in (("ormask", om, omr), ("bmask", bm, bmr)):
        for suf, rr, cc in (("", r, c), ("_noshear", ur, uc)):
            want = gsim.ref_region(mask, rr, cc, reg)
            ok = np.array([not (near_half(a) or near_half(b))
                           for a, b in zip(rr, cc)])
            ctx.equal(rows[nm + suf][ok].astype('i8'), want[ok],
                      nm + suf + "-column", region=reg, **w)
            if np.any(want):
                ctx.count("nonzero_" + nm)
        if np.any(rows[nm] != rows[nm + "_noshear"]):
            ctx.count("mask_differs_between_positions")
    mf = gsim.ref_mfrac_image(orig, s)
    ctx.close(rows["mfrac_img"], np.full(rows.size, mf.mean()), "mfrac-img",
              rtol=1e-5, atol=1e-7, **w)
    for suf, rr, cc in (("", rows["sx_row"], rows["sx_col"]),
                        ("_noshear", rows["sx_row_noshear"],
                         rows["sx_col_noshear"])):
        for k in range(rows.size):
            if bs[k] < 0:
                continue
            got = float(rows["mfrac" + suf][k])
            if not np.any(mf > 0):
                ctx.check(got == 0, "mfrac-of-unmasked-image", got=got, **w)
                ctx.count("zero_mfrac_rows")
                continue
            want, amb = gsim.ref_mfrac_at(mf, cc[k], rr[k], int(bs[k]), jac,
                                          fwhm)
            if want is None:
                continue
            ctx.close(got, want, "mfrac%s-column" % suf, rtol=0,
                      atol=3e-2 if amb else 2e-5, k=k, bs=int(bs[k]), **w)
            if want > 0 and mf.mean() < 1e-3:
                ctx.count("few_masked")
            if want > 1e-3:
                ctx.count("nonzero_mfrac")
    want = "".join(str(b) for b in sorted(d))
    ctx.check(all(str(v) == want for v in rows["det_bands"]),
              "det-bands-label", got=str(rows["det_bands"][0]), want=want)
    want = "".join(str(b) for b in sorted(s))
    ctx.check(all(str(v) == want for v in rows["shear_bands"]),
              "shear-bands-label", got=str(rows["shear_bands"][0]), want=want)
    n = rows.size
    ctx.count("rows", n)
    if t in ("1p", "1m", "2p", "2m"):
        ctx.count("sheared_rows", n)
    if bmr > 1:
        ctx.count("region_rows", n)
    if omr != bmr:
        ctx.count("ormask_region_rows", n)
    if len(s) < len(orig):
        ctx.count("subset_rows", n)
    ctx.count("border_rows", np.sum(
        (r < 6) | (c < 6) | (r > dims[0]-7) | (c > dims[1]-7)))
    ctx.count("moved_pixel_rows", np.sum(
        (np.rint(r) != np.rint(ur)) | (np.rint(c) != np.rint(uc))))


def fam_unit(ctx, rng, i):
    """the same columns on scripted detections: any position, many types"""
    from checks.d01 import fake_catalog, fake_sep
    nband = int(rng.randint(1, 3))
    kind = str(rng.choice(["random", "blob", "zero"]))
    mbobs = gsim.scene(rng, nband=nband, n=60, ngal=1, mfrac=kind)
    dims = mbobs[0][0].image.shape
    jac = mbobs[0][0].jacobian
    for ol in mbobs:
        with ol[0].writeable():
            for a in (ol[0].bmask, ol[0].ormask):
                k = rng.uniform(size=a.shape) < 0.4
                a[k] |= 2**rng.randint(0, 29, size=k.sum()).astype('i4')
    m = int(rng.randint(1, 12))
    x = rng.uniform(-0.49, dims[1]-0.51, size=m)
    y = rng.uniform(-0.49, dims[0]-0.51, size=m)
    # corners and borders
    j = rng.randint(m)
    x[j], y[j] = [(-.3, -.3), (dims[1]-.7, dims[0]-.7), (-.3, dims[0]-.7),
                  (dims[1]-.7, -.3)][rng.randint(4)]
    fc = fake_catalog(rng, x, y)
    seg = np.zeros(dims, 'i4')

    def run_sep(image, noise, config=None, thresh=None, mask=None):
        gsim.ngmix.log.emit("run_sep", image=image, noise=noise, mask=mask,
                            thresh=thresh, config=config, cat=fc, seg=seg)
        return fc.copy(), seg.copy()
    conf = gsim.config(rng, "wmom", types=["noshear", str(rng.choice(
        ["1p", "1m", "2p", "2m"]))])
    conf["mask_region"] = int(rng.choice([1, 2, 4, 20, 100]))
    if rng.uniform() < 0.5:
        conf["ormask_region"] = int(rng.choice([1, 3, 30]))
    step = float(rng.choice([0.01, 0.05]))
    conf["metacal"]["step"] = step
    ctx.describe(conf=conf, x=x, y=y, scripted=True)
    orig = gsim.planes(mbobs)
    with fake_sep(run_sep):
        res, log = gsim.run(copy.deepcopy(conf), mbobs)
    bmr, omr = region_sizes(conf)
    ctx.require(res is not None, "no-result")
    for t in conf["metacal"]["types"]:
        e, bs = gsim.det_rows(log, log.metacal[0]["odict"][t],
                              list(range(nband)), 0, conf)
        ctx.require(e is not None, "detection-not-found")
        check_block(ctx, res[t], fc, bs, t, list(range(nband)),
                    list(range(nband)), orig, jac, dims, step,
                    conf["weight"]["fwhm"], bmr, omr, kind)
    ctx.nontrivial("scripted", nband, bmr, omr, kind, step)


FAMILIES = {"cols": (fam_cols, 160, 3000), "unit": (fam_unit, 100, 1500)}
