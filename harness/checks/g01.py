import copy
import numpy as np
import ngmix
import ngmix.log
import gsim
from checks.d01 import fake_sep

PROPERTY = "G01"
RULE = ("full driver runs with conditions drawn independently: masked "
        "fraction planes (absent, zero, one in some or all bands, one except "
        "a pixel), weights (fine, zero in one band, zero except a pixel), "
        "not-for-detection bits over all or all but one pixel of a band, "
        "injected PSF-fit and metacalibration failures, empty scenes and "
        "extractors that find nothing for chosen types or band combinations; "
        "distinct by (conditions, outcome)")
REQUIRED = ["results", "no_results", "none_mfrac", "none_weight",
            "none_nodet", "none_metacal", "psf_fit_failed", "entry_none",
            "entry_rows", "partial_entries", "one_pixel_left",
            "default_types", "before_go", "refused"]
ASSUMPTIONS = ["failures of dependencies are raised as ngmix does"]


def set_plane(o, name, val):
    getattr(o, "set_" + name)(val)


def fam_conditions(ctx, rng, i):
    nband = int(rng.randint(1, 4))
    mbobs = gsim.scene(rng, nband=nband, n=64, ngal=2, mfrac="none",
                       wkind="flat")
    dims = mbobs[0][0].image.shape
    conf = gsim.config(rng, "wmom")
    if rng.uniform() < 0.2:
        conf["metacal"].pop("types")
        ctx.count("default_types")
        types = ['noshear', '1p', '1m', '2p', '2m']
    else:
        types = conf["metacal"]["types"]
    why = []
    # masked fractions
    mk = str(rng.choice(["none", "none", "zero", "one", "one_but_pixel",
                         "one_in_some", "above"]))
    if mk != "none":
        for b, ol in enumerate(mbobs):
            mf = np.zeros(dims)
            if mk == "one":
                mf[:] = 1
            elif mk == "above":
                mf[:] = 1.0 + 1e-9
            elif mk == "one_but_pixel":
                mf[:] = 1
                mf[7, 9] = 0.5
            elif mk == "one_in_some" and b == 0:
                mf[:] = 1
            ol[0].mfrac = mf
        if mk == "one" and nband > 1:
            # weights whose average of ones is one in any order of operations
            unit = 2.0**int(rng.randint(-3, 9))
            rel = rng.permutation([[1, 1], [1, 1, 2]][nband-2])
            for r, ol in zip(rel, mbobs):
                with ol[0].writeable():
                    ol[0].weight[:] = unit*r
    # weights
    wk = str(rng.choice(["ok", "ok", "ok", "zero", "pixel"]))
    wb = int(rng.randint(nband))
    if wk == "zero":
        mbobs[wb][0].ignore_zero_weight = False
        with mbobs[wb][0].writeable():
            mbobs[wb][0].weight[:] = 0
    elif wk == "pixel":
        with mbobs[wb][0].writeable():
            v = mbobs[wb][0].weight[5, 5]
            mbobs[wb][0].weight[:] = 0
            mbobs[wb][0].weight[5, 5] = v
        ctx.count("one_pixel_left")
    # no-detection bits
    nodet = int(rng.choice([0, 2**3, 2**21 | 2**22, 2**30]))
    nk = str(rng.choice(["no", "no", "all", "all_but_pixel", "mixed"]))
    nb = int(rng.randint(nband))
    if nodet:
        conf["nodet_flags"] = nodet
    with mbobs[nb][0].writeable():
        bm = mbobs[nb][0].bmask
        if nk == "all":
            bm |= nodet
        elif nk == "all_but_pixel":
            bm |= nodet
            bm[11, 4] = 0
        elif nk == "mixed" and nodet:
            # each pixel has some of the bits
            if nodet == (2**21 | 2**22):
                bm |= np.where(rng.uniform(size=dims) < 0.5, 2**21,
                               2**22).astype('i4')
    # faults
    fk = str(rng.choice(["no", "no", "no", "metacal", "psf_fit"]))
    faults = {}
    if fk == "metacal":
        def boom(obs):
            raise ngmix.gexceptions.BootPSFFailure("injected")
        faults["metacal"] = boom
    elif fk == "psf_fit":
        def bad(o, res):
            res = dict(res)
            res["flags"] = 2**3
            return res
        faults["psf_fit"] = bad
    # expected outcome
    if not np.any(gsim.ref_mfrac_image(mbobs, range(nband)) < 1):
        why.append("mfrac")
    if any(np.all(ol[0].weight == 0) for ol in mbobs):
        why.append("weight")
    if any(np.all((ol[0].bmask & nodet) != 0) for ol in mbobs):
        why.append("nodet")
    if fk == "metacal" and not why:
        why.append("metacal")
    shear, det = gsim.rand_combs(rng, nband)
    ctx.describe(nband=nband, mfrac=mk, weight=wk, nodet=nk, bits=nodet,
                 fault=fk, why=why, shear=shear, det=det)
    kw = dict(shear_band_combs=shear, det_band_combs=det)
    ngmix.log.faults.update(faults)
    try:
        res, log = gsim.run(copy.deepcopy(conf), mbobs, **kw)
    finally:
        for k in faults:
            ngmix.log.faults.pop(k, None)
    if why:
        ctx.check(res is None, "result-though-unmeasurable/" + why[0],
                  why=why, got=None if res is None else sorted(res))
        ctx.count("no_results")
        for k in why:
            ctx.count("none_" + k)
    else:
        ctx.require(res is not None, "no-result-though-measurable")
        ctx.check(isinstance(res, dict) and set(res) == set(types),
                  "types", got=sorted(res), want=types)
        ctx.count("results")
        sh, de = gsim.norm_combs(nband, shear, det)
        for t in types:
            want = 0
            for d in de:
                e = gsim.find_detection(
                    log, log.metacal[0]["odict"][t], d, nodet)
                ctx.require(e is not None, "detection-not-found", t=t)
                want += e["cat"].size
            entry(ctx, res[t], want, t)
        if fk == "psf_fit":
            ctx.count("psf_fit_failed")
    ctx.nontrivial(nband, mk, wk, nk, nodet, fk, tuple(why))
    ctx.sample(ctx.info)


def entry(ctx, rows, want, t):
    if want == 0:
        ctx.check(rows is None, "empty-type-not-none", t=t,
                  got=None if rows is None else rows.size)
        ctx.count("entry_none")
    else:
        ctx.require(rows is not None, "detected-type-is-none", t=t)
        ctx.check(rows.shape == (want,), "row-count", t=t, got=rows.shape,
                  want=want)
        ctx.count("entry_rows")


def fam_empty(ctx, rng, i):
    """extractors that find nothing for chosen images"""
    import sxdes
    nband = int(rng.randint(1, 4))
    mbobs = gsim.scene(rng, nband=nband, n=64, ngal=2, mfrac="zero",
                       wkind="flat")
    types = [str(t) for t in rng.permutation(
        ["noshear", "1p", "1m", "2p", "2m"])[:3]]
    conf = gsim.config(rng, str(rng.choice(["wmom", "pgauss", "am"])),
                       types=types)
    m = int(rng.randint(1, 4))
    shear = [[int(b) for b in rng.permutation(nband)[
        :rng.randint(1, nband+1)]] for _ in range(m)]
    drop = rng.uniform(size=200) < rng.choice([0.3, 0.6, 1.0, 0.8])
    cut = int(rng.randint(0, 4))
    seen = []

    def scripted(image, noise, config=None, thresh=None, mask=None):
        # decided by the image content: the same image, the same answer
        key = int(abs(image[3, 3])*1e6) % 200
        cat, seg = sxdes._run_sep(image=image, noise=noise, config=config,
                                  thresh=thresh, mask=mask)
        if drop[key]:
            cat, seg = cat[:0], seg*0
        elif cut and cut < cat.size:
            seg = np.where(seg > cut, 0, seg)
            cat = cat[:cut]
        seen.append((np.array(image), cat.size))
        return cat, seg
    ctx.describe(nband=nband, types=types, shear=shear)
    det = "shear_bands"
    with fake_sep(scripted):
        res, log = gsim.run(copy.deepcopy(conf), mbobs,
                            shear_band_combs=shear, det_band_combs=det)
    ctx.require(res is not None, "no-result-though-measurable")
    ctx.check(set(res) == set(types), "types", got=sorted(res))
    part = False
    for t in types:
        want = 0
        some = []
        for d in shear:
            im, _, _ = gsim.ref_detim(
                [log.metacal[0]["odict"][t][b] for b in d], 0)
            hit = [k for a, k in seen if np.allclose(a, im, rtol=1e-8,
                                                     atol=1e-10)]
            ctx.require(hit, "detection-not-found", t=t)
            want += hit[0]
            some.append(hit[0])
        entry(ctx, res[t], want, t)
        part = part or (min(some) == 0 and max(some) > 0)
    if part or len({res[t] is None for t in types}) > 1:
        ctx.count("partial_entries")
    ctx.nontrivial(nband, tuple(res[t] is None for t in types), shear)


def fam_refuse(ctx, rng, i):
    from metadetect.metadetect import Metadetect, do_metadetect
    mbobs = gsim.scene(rng, nband=2, n=64, ngal=1)
    rs = np.random.RandomState(3)
    conf = gsim.config(rng, "wmom")
    md = Metadetect(copy.deepcopy(conf), mbobs, rs)
    ctx.expect_raises(lambda: md.result, RuntimeError, "result-before-go")
    ctx.count("before_go")
    if rng.uniform() < 0.3:
        md.go()
        ctx.check(set(md.result) == set(conf["metacal"]["types"]),
                  "result-after-go")
    bad = []
    for k in ("metacal", "meds"):
        c = copy.deepcopy(conf)
        c.pop(k)
        bad.append((c, {}, (AssertionError, KeyError, ValueError,
                            RuntimeError), "missing-" + k))
    c = copy.deepcopy(conf)
    c["fitters"] = [dict(model="wmom", weight=dict(fwhm=1.2))]
    bad.append((c, {}, RuntimeError, "both-fitter-forms"))
    for k in ("model", "symmetrize", "coadd"):
        c = gsim.config(rng, [dict(model="wmom", weight=dict(fwhm=1.2))])
        c[k] = {"model": "wmom", "symmetrize": True, "coadd": False}[k]
        bad.append((c, {}, RuntimeError, "both-fitter-forms-" + k))
    c = copy.deepcopy(conf)
    c["model"] = "nonsense"
    bad.append((c, {}, ValueError, "unknown-model"))
    bad.append((copy.deepcopy(conf), dict(color_key_func=lambda f: None),
                RuntimeError, "color-function-alone"))
    bad.append((copy.deepcopy(conf), dict(color_dep_mbobs={"a": mbobs}),
                RuntimeError, "color-renderings-alone"))
    for c, kw, exc, nm in bad:
        ctx.expect_raises(
            lambda: do_metadetect(c, mbobs, np.random.RandomState(1), **kw),
            exc, "accepted/" + nm)
        ctx.count("refused")


FAMILIES = {"conditions": (fam_conditions, 400, 6000),
            "empty": (fam_empty, 80, 1200),
            "refuse": (fam_refuse, 16, 100)}
