import numpy as np
import lsim
from mon import snapshot

PROPERTY = "L08"
RULE = ("1-3 bands of 60-200 pixels a side with their own constant or sloped "
        "sky, noise and stars, rubbish under every unusable mask plane, "
        "detections marked beforehand, 1-4 iterations, thresholds and "
        "overrides, failing background or detection steps in chosen bands "
        "and iterations; every background step recorded; distinct by (entry "
        "point, bands, iterations, masks, sky kind, fault)")
REQUIRED = ["single_steps", "iterations", "bands_processed", "rubbish_pixels",
            "detected_before", "sky_recovered", "bgmean_checked",
            "background_faults", "detection_faults", "refused_niter",
            "config_kept", "thresholds_seen", "niter_overrides",
            "band_alone", "not_ignored_plane", "recorded_after_failure"]
ASSUMPTIONS = [
    "background model and detection are the stand-in's: what they are given "
    "and how their results are used is monitored",
    "the sky is recovered to 0.3 of the pixel noise or 5 standard errors"]

IGNORED = ["BAD", "EDGE", "DETECTED", "DETECTED_NEGATIVE", "NO_DATA",
           "BRIGHT"]
RUBBISH = ["BAD", "EDGE", "DETECTED", "DETECTED_NEGATIVE", "NO_DATA",
           "BRIGHT"]


def bit(name):
    from lsst.afw.image import Mask
    Mask.addMaskPlane(name)
    return Mask.getPlaneBitMask(name)


def bits(names):
    out = 0
    for n in names:
        out |= bit(n)
    return out


def ptr(exp):
    return exp.image.array.__array_interface__['data'][0]


class Field:
    def __init__(self, ctx, rng, nband=None, stars=True):
        lsim.new_planes(rng)
        box = self.box = lsim.random_box(rng, 60, 200)
        wcs, scale = lsim.make_wcs(rng, lsim.box_center(box), scale=0.2)
        self.bands = lsim.bands_of(rng, 1, 3 if rng.uniform() < .8 else 6)
        if nband:
            self.bands = self.bands[:nband]
        self.dims = (box.getHeight(), box.getWidth())
        y, x = np.mgrid[:self.dims[0], :self.dims[1]]
        psf = lsim.make_psf(rng, scale, dim=25, fwhm=0.8, varying=False)
        nstar = int(rng.randint(0, 5)) if stars else 0
        pos = [(rng.uniform(8, self.dims[0]-8), rng.uniform(
            8, self.dims[1]-8)) for _ in range(nstar)]
        self.far = np.ones(self.dims, bool)
        for a, b in pos:
            self.far &= np.hypot(y - a, x - b) > 14
        self.noise, self.sky, self.kind = [], [], []
        exps = []
        for j, b in enumerate(self.bands):
            noise = float(lsim.unit(rng)*10**rng.uniform(-2, 1))
            lev = float(rng.choice([0, 3, -2, 50, 1000]))*noise
            kind = str(rng.choice(["flat", "flat", "slope"]))
            sky = np.full(self.dims, lev)
            if kind == "slope":
                sky += noise*(rng.uniform(-1, 1)*y/self.dims[0]
                              + rng.uniform(-1, 1)*x/self.dims[1])
            im = sky.copy()
            for a, c in pos:
                im += noise*rng.uniform(20, 200)*np.exp(
                    -0.5*((y-a)**2 + (x-c)**2)/1.7**2)
            e = lsim.make_exposure(rng, box, wcs, psf, b, noise=noise,
                                   image=im, dtype='f4', masked=False)
            m = np.zeros(self.dims, dtype='i4')
            # bits that do not matter for the sky
            other = rng.uniform(size=self.dims) < 0.05
            m[other] |= bit("CROSSTALK") | bit("SAT")
            for n in RUBBISH:
                if rng.uniform() < 0.5:
                    continue
                r0 = int(rng.randint(self.dims[0] - 8))
                c0 = int(rng.randint(self.dims[1] - 8))
                sl = (slice(r0, r0 + int(rng.randint(2, 8))),
                      slice(c0, c0 + int(rng.randint(2, 8))))
                m[sl] |= bit(n)
                e.image.array[sl] += noise*float(rng.choice(
                    [300, -300, 1e4]))
                ctx.count("rubbish_pixels", 1)
                if n == "DETECTED":
                    ctx.count("detected_before")
            e.mask.array[:, :] = m
            e.getMetadata()["KEY"] = j
            exps.append(e)
            self.noise.append(noise)
            self.sky.append(sky)
            self.kind.append(kind)
        self.mb = lsim.multi(exps)
        for s, e in zip(self.mb.singles, exps):
            s.getMetadata()["KEY"] = e.getMetadata()["KEY"]


class Watch:
    """records what each step is given"""

    def __init__(self, faults=None):
        import lsst.meas.algorithms as alg
        self.alg = alg
        self.seen = []
        self.faults = faults or {}
        self.n = {}

    def step(self, what):
        def fn(exp):
            k = (what, ptr(exp))
            self.n[k] = self.n.get(k, 0) + 1
            self.seen.append(dict(
                what=what, data=ptr(exp), mask=exp.mask.array.copy(),
                image=exp.image.array.copy(),
                variance=exp.variance.array.copy()))
            f = self.faults.get((what, ptr(exp), self.n[k]))
            if f is not None:
                raise f
        return fn

    def __enter__(self):
        self.alg.EVENTS.clear()
        for w in ("background", "detection"):
            self.alg.FAULTS[w] = self.step(w)
        return self

    def __exit__(self, *a):
        self.alg.FAULTS.clear()
        self.events = list(self.alg.EVENTS)
        self.alg.EVENTS.clear()

    def of(self, exp, what=None):
        p = ptr(exp)
        ev = [e for e in self.events if e["data"] == p
              and (what is None or e["what"] == what)]
        return ev

    def given(self, exp, what):
        p = ptr(exp)
        return [s for s in self.seen if s["data"] == p and s["what"] == what]


def check_band(ctx, w, exp, before, meta, field, j, niter, mech, detect=True,
               faulty=False):
    """one band's steps and what they left"""
    bg = w.of(exp, "background")
    det = w.of(exp, "detection")
    if not faulty:
        ctx.require(len(bg) == niter, mech + "-background-steps",
                    got=len(bg), want=niter, band=j)
        if detect:
            ctx.require(len(det) == niter, mech + "-detection-steps",
                        got=len(det), want=niter, band=j)
            order = [e["what"] for e in w.of(exp)]
            ctx.check(order == ["background", "detection"]*niter,
                      mech + "-order", got=order)
    ign = bits(IGNORED)
    for e, s in zip(bg, w.given(exp, "background")):
        # the sky is measured on unflagged pixels only, and on all of them
        want = (s["mask"] & ign) == 0
        ctx.equal(e["used"], want, mech + "-sky-pixels", band=j)
        if (want & (s["mask"] != 0)).any():
            ctx.count("not_ignored_plane")
    if bg:
        total = np.sum([e["bg"].astype('f8') for e in bg], axis=0)
        ctx.close(before[0].astype('f8') - exp.image.array, total,
                  mech + "-subtracted", rtol=0,
                  atol=1e-5*max(1.0, np.abs(before[0]).max()), band=j)
    else:
        ctx.equal(exp.image.array, before[0], mech + "-subtracted", band=j)
    ctx.equal(exp.variance.array, before[1], mech + "-variance", band=j)
    free = ~np.int32(bits(["DETECTED", "DETECTED_NEGATIVE"]))
    ctx.equal(exp.mask.array & free, before[2] & free, mech + "-mask",
              band=j)
    if not detect:
        ctx.equal(exp.mask.array, before[2], mech + "-mask", band=j)
    md = exp.getMetadata()
    ctx.check(md.get("KEY") == meta.get("KEY"), mech + "-metadata", band=j)
    if bg:
        # all that was subtracted, also when a later step failed
        want = sum(e["mean"] for e in bg)
        ctx.check(abs(md["BGMEAN"] - want) <= 1e-6*max(
            abs(e["mean"]) for e in bg) + 1e-12, mech + "-recorded-sky",
            got=md["BGMEAN"], want=want, band=j)
        ctx.count("bgmean_checked")
        if faulty:
            ctx.count("recorded_after_failure")
    if not faulty:
        # and it is the sky that was planted
        ok = field.far & ((exp.mask.array & ign) == 0)
        if ok.sum() > 300:
            n = field.noise[j]
            left = np.median(exp.image.array[ok])
            # where sources were found twice, or are absent
            if (niter > 1 and detect) or field.far.all():
                tol = max(0.3*n, 6*n/np.sqrt(ok.sum()))
                ctx.check(abs(left) <= tol, mech + "-residual-sky",
                          got=float(left/n), band=j, sky=float(
                              field.sky[j].mean()/n))
                ctx.count("sky_recovered")
        ctx.count("iterations", niter)
    ctx.count("bands_processed")


def begin(ctx, rng, **kw):
    f = Field(ctx, rng, **kw)
    return f, [lsim.planes(e) for e in f.mb.singles], [
        dict(e.getMetadata().items()) for e in f.mb.singles]


def fam_once(ctx, rng, i):
    from metadetect.lsst import skysub
    f, before, meta = begin(ctx, rng, nband=1)
    exp = f.mb.singles[0]
    ctx.describe(dims=f.dims, sky=float(f.sky[0].mean()), kind=f.kind[0])
    with Watch() as w:
        out = skysub.determine_and_subtract_sky(exp)
    ctx.check(out is not None, "no-background-returned")
    ctx.check(w.of(exp, "detection") == [], "detection-unasked")
    check_band(ctx, w, exp, before[0], meta[0], f, 0, 1, "once",
               detect=False)
    ctx.count("single_steps")
    ctx.nontrivial("once", f.kind[0], int(before[0][2].any()),
                   bool(f.far.all()))


def user_config(rng, niter, multi, ctx):
    """caller's overrides; None when not given"""
    r = rng.uniform()
    if r < 0.35:
        return None, niter
    inner = {}
    if multi and rng.uniform() < 0.6:
        niter = int(rng.randint(1, 5))
        inner["niter"] = niter
        ctx.count("niter_overrides")
    if rng.uniform() < 0.4:
        inner["back"] = {"binSize": int(rng.choice([64, 128, 256]))}
    if rng.uniform() < 0.4:
        inner["detect"] = {"nSigmaToGrow": 2.5}
    return ({"iterate_detection_and_skysub": inner} if multi else inner), \
        niter


def fam_iterate(ctx, rng, i):
    from metadetect.lsst import skysub
    f, before, meta = begin(ctx, rng, nband=1)
    exp = f.mb.singles[0]
    thresh = float(rng.choice([5.0, 8.0, 15.0]))
    kw = {}
    niter = 2
    if rng.uniform() < 0.6:
        niter = kw["niter"] = int(rng.randint(1, 5))
    cfg, _ = user_config(rng, niter, False, ctx)
    if cfg is not None:
        kw["config"] = cfg
    snap = snapshot(cfg)
    ctx.describe(dims=f.dims, sky=float(f.sky[0].mean()), kind=f.kind[0],
                 niter=niter, thresh=thresh, config=cfg)
    with Watch() as w:
        res = skysub.iterate_detection_and_skysub(exp, thresh, **kw)
    ctx.check(snapshot(cfg) == snap, "config-modified/iterate")
    if cfg is not None:
        ctx.count("config_kept")
    check_band(ctx, w, exp, before[0], meta[0], f, 0, niter, "iterate")
    for d in w.of(exp, "detection"):
        ctx.check(d["threshold"] == thresh, "threshold", got=d["threshold"])
        ctx.count("thresholds_seen")
        if cfg and "detect" in cfg:
            ctx.check(d["config"]["nSigmaToGrow"] == 2.5, "detect-config")
    ctx.check(res is not None and len(res.sources)
              == w.of(exp, "detection")[-1]["nsrc"], "detection-result")
    for bad in (0, -1):
        img = exp.image.array.copy()
        ctx.expect_raises(
            lambda: skysub.iterate_detection_and_skysub(
                exp, thresh, niter=bad), ValueError, "bad-niter-accepted")
        ctx.equal(exp.image.array, img, "refused-but-changed")
        ctx.count("refused_niter")
        ctx.expect_raises(
            lambda: skysub.subtract_sky_mbexp(
                f.mb, config={"iterate_detection_and_skysub": {
                    "niter": bad}}), ValueError, "bad-niter-accepted/multi")
        ctx.equal(exp.image.array, img, "refused-but-changed/multi")
    ctx.nontrivial("iterate", f.kind[0], niter, cfg is None,
                   bool(f.far.all()))


def fam_multi(ctx, rng, i):
    from metadetect.lsst import skysub
    f, before, meta = begin(ctx, rng)
    kw = {}
    thresh = 5.0
    if rng.uniform() < 0.6:
        thresh = kw["thresh"] = float(rng.choice([5.0, 8.0, 15.0]))
    cfg, niter = user_config(rng, 2, True, ctx)
    if cfg is not None:
        kw["config"] = cfg
    snap = snapshot(cfg)
    ctx.describe(dims=f.dims, bands=f.bands, kinds=f.kind, niter=niter,
                 thresh=thresh, config=cfg)
    twin = None
    if len(f.bands) > 1:
        j = int(rng.randint(len(f.bands)))
        from lsst.afw.image import ExposureF
        e = ExposureF(f.mb.singles[j], deep=True)
        e.setFilter(f.mb.singles[j].getFilter())
        twin = (j, lsim.multi([e]))
    with Watch() as w:
        skysub.subtract_sky_mbexp(f.mb, **kw)
    ctx.check(snapshot(cfg) == snap, "config-modified/multi")
    if cfg is not None:
        ctx.count("config_kept")
    for j, exp in enumerate(f.mb.singles):
        check_band(ctx, w, exp, before[j], meta[j], f, j, niter, "multi")
        for d in w.of(exp, "detection"):
            ctx.check(d["threshold"] == thresh, "threshold",
                      got=d["threshold"])
            ctx.count("thresholds_seen")
    if twin is not None:
        # a band on its own gives the same
        j, mb1 = twin
        skysub.subtract_sky_mbexp(mb1, **kw)
        for a, b in zip(lsim.planes(mb1.singles[0]),
                        lsim.planes(f.mb.singles[j])):
            ctx.equal(b, a, "bands-not-independent", band=j)
        ctx.count("band_alone")
    ctx.nontrivial("multi", len(f.bands), f.kind, niter, cfg is None,
                   bool(f.far.all()))
    ctx.sample(ctx.info)


def fam_faults(ctx, rng, i):
    """a failing step ends its own band only, leaving what was subtracted"""
    from metadetect.lsst import skysub
    from lsst.pex.exceptions import RuntimeError as LsstError
    from lsst.pipe.base import TaskError
    f, before, meta = begin(ctx, rng)
    what = str(rng.choice(["background", "detection"]))
    it = int(rng.randint(1, 3))
    j = int(rng.randint(len(f.bands)))
    err = (LsstError if rng.uniform() < 0.5 else TaskError)("planted")
    ctx.describe(dims=f.dims, bands=f.bands, what=what, it=it, band=j,
                 err=type(err).__module__)
    import logging
    logging.getLogger("lsst").setLevel(logging.CRITICAL)
    with Watch({(what, ptr(f.mb.singles[j]), it): err}) as w:
        skysub.subtract_sky_mbexp(f.mb)
    for k, exp in enumerate(f.mb.singles):
        check_band(ctx, w, exp, before[k], meta[k], f, k, 2, "fault",
                   faulty=k == j)
    nbg = len(w.of(f.mb.singles[j], "background"))
    ctx.check(nbg == (it - 1 if what == "background" else it),
              "steps-after-failure", got=nbg)
    ctx.count(what + "_faults")
    ctx.nontrivial("fault", len(f.bands), what, it, type(err).__name__)


FAMILIES = {"once": (fam_once, 40, 800), "iterate": (fam_iterate, 60, 1200),
            "multi": (fam_multi, 60, 1200), "faults": (fam_faults, 40, 800)}
