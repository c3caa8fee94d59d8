import copy
import math
import numpy as np
import ngmix
import lsim
from mon import snapshot
from checks import l05, l07

PROPERTY = "L09"
RULE = ("whole runs on 1-3 bands of planted stars (90-125 pixels a side, not "
        "square, away from the origin) over configurations of types, target "
        "PSF, shear bands, thresholds, stamp sizes, sky subtraction and "
        "deblender, with and without masked fractions and or-masks, every "
        "run done twice; and the masked-fraction, or-mask and PSF averages "
        "directly, with failing PSFs and positions off the image; distinct "
        "by (entry point, bands, shear bands, types, configuration)")
REQUIRED = ["runs", "tables", "rows_checked", "type_measured",
            "mfrac_rows", "ormask_rows", "psf_rows", "shear_subsets",
            "reproduced", "sky_runs", "scarlet_runs", "sdss_runs",
            "no_source_runs", "psf_failures", "psf_stats_checked",
            "displacements", "off_image", "mfrac_values", "refused",
            "no_mfrac", "no_ormasks", "offset_cases", "nonsquare",
            "dropped_bands", "psf_failed_runs", "ormask_combined",
            "ormask_positions", "ormask_off_image",
            "missing_psf", "corner_positions", "elongated_psfs",
            "psf_exceptions"]
ASSUMPTIONS = [
    "fits, detection, deblending and metacalibration images of an exposure "
    "are decided by L07, L05 and L04; here they are recomputed for the "
    "exposure and type the table is filed under",
    "adaptive moments of the PSF (ngmix stand-in) agree to 2e-3 from any "
    "starting guess",
    "with sky subtraction the multi-band exposure itself is the output"]
ALLT = ["noshear", "1p", "1m", "2p", "2m"]
CASE_LIMIT = 250


# ------------------------------------------------------------- references
def ref_mfrac(mfrac, col, row, wcs, cx, cy, fwhm=1.2):
    """Gaussian-weighted average at array position (col, row); None when no
    pixel is near enough to weigh anything"""
    dudx, dudy, dvdx, dvdy = lsim.true_jacobian(wcs, cx, cy)
    y, x = np.mgrid[:mfrac.shape[0], :mfrac.shape[1]]
    dx, dy = x - col, y - row
    u, v = dudx*dx + dudy*dy, dvdx*dx + dvdy*dy
    r2 = (u**2 + v**2)*(2.3548200450309493/fwhm)**2
    w = np.where(r2 < 25.0, np.exp(-0.5*r2), 0.0)
    if w.sum() < 1e-2:
        # decided unless the only pixels are at the rim of the aperture
        rim = np.abs(r2 - 25.0) < 1e-3
        if w.sum() == 0 or rim.any():
            return None
    return float((w*mfrac).sum()/w.sum())


def med_weight(e):
    v = np.asarray(e.variance.array)
    v = v[np.isfinite(v) & (v > 0)]
    return 1.0/np.median(v)


def ref_psf_fit(e, box):
    (cx, cy), p = l05.ref_psf(e, box)
    p = np.array(p, dtype='f4')
    dudx, dudy, dvdx, dvdy = lsim.true_jacobian(e.getWcs(), cx, cy)
    c = (np.array(p.shape) - 1)/2.0
    jac = ngmix.Jacobian(row=c[0], col=c[1], dudcol=dudx, dudrow=dudy,
                         dvdcol=dvdx, dvdrow=dvdy)
    r = np.random.RandomState(5)
    return ngmix.runners.PSFRunner(
        fitter=ngmix.admom.AdmomFitter(rng=r),
        guesser=ngmix.guessers.GMixPSFGuesser(
            rng=r, ngauss=1, guess_from_moms=True),
        ntry=4).go(obs=ngmix.Observation(p, jacobian=jac))


def ref_psf_stats(mb, box, shear, wgts):
    """dict of the averages over shear bands and the list of fits"""
    fits = [ref_psf_fit(e, box) for e in mb.singles]
    if any(f['flags'] != 0 for f in fits):
        return None, fits
    w = np.array([wgts[j] for j in shear])
    e1 = np.sum([w[k]*fits[j]['e'][0] for k, j in enumerate(shear)])/w.sum()
    e2 = np.sum([w[k]*fits[j]['e'][1] for k, j in enumerate(shear)])/w.sum()
    T = np.sum([w[k]*fits[j]['T'] for k, j in enumerate(shear)])/w.sum()
    e = math.hypot(e1, e2)
    f = 0.5 if e < 1e-9 else math.tanh(0.5*math.atanh(e))/e
    return dict(e1=e1, e2=e2, g1=e1*f, g2=e2*f, T=T, navg=len(shear)), fits


def check_stats(ctx, got, mb, box, shear, wgts, fail=False, bands=None):
    from metadetect import procflags
    if fail:
        ctx.check(got['flags'] & procflags.PSF_FAILURE != 0,
                  "psf-failure-not-flagged", got=int(got['flags']))
        ctx.check(got['navg'] == 0, "psf-failure-navg", got=got['navg'])
        for n in ('e1', 'e2', 'g1', 'g2', 'T'):
            ctx.check(got[n] == -9999.0, "psf-failure-values", n=n,
                      got=got[n])
        ctx.count("psf_failures")
        return
    want, fits = ref_psf_stats(mb, box, shear, wgts)
    if want is None:
        return
    ctx.check(got['flags'] == 0, "psf-flags", got=int(got['flags']))
    ctx.check(got['navg'] == want['navg'], "psf-navg", got=got['navg'],
              want=want['navg'])
    for n in ('e1', 'e2', 'g1', 'g2', 'T'):
        ctx.check(abs(got[n] - want[n]) < 2e-3*(1 if n == 'T' else 0.5),
                  "psf-average/" + n, got=float(got[n]), want=want[n])
    pb = got['perband']
    ctx.require(pb is not None and len(pb) == len(fits), "psf-perband")
    for j, f in enumerate(fits):
        ctx.check(abs(pb['e1'][j] - f['e'][0]) < 1e-3
                  and abs(pb['e2'][j] - f['e'][1]) < 1e-3
                  and abs(pb['T'][j] - f['T']) < 2e-3, "psf-perband-values",
                  band=j, got=str(pb[j]), want=(list(f['e']), f['T']))
        ctx.check(bool(pb['is_shear_band'][j]) == (j in shear),
                  "psf-perband-shear-band", band=j)
        ctx.check(abs(pb['wgt'][j]/wgts[j] - 1) < 1e-5, "psf-perband-weight",
                  band=j, got=pb['wgt'][j], want=wgts[j])
    ctx.count("psf_stats_checked")


# ------------------------------------------------------------------ fields
class Field:
    """planted stars in a few bands with all the planes a run takes"""

    def __init__(self, ctx, rng, empty=False, sky=0.0, psf_dim=25):
        from lsst.afw import table
        lsim.new_planes(rng)
        table.ID_START[0] = int(rng.choice([1, 1, 5000]))
        box = self.box = lsim.random_box(rng, 80, 120)
        ctx.count("offset_cases", int(box.getBeginX() != 0))
        ctx.count("nonsquare", int(box.getWidth() != box.getHeight()))
        self.wcs, self.scale = lsim.make_wcs(rng, lsim.box_center(box),
                                             scale=0.2)
        self.bands = lsim.bands_of(rng, 1, 3 if rng.uniform() < .85 else 4)
        if 'i' not in self.bands and rng.uniform() < 0.5:
            self.bands[0] = 'i'
        self.dims = (box.getHeight(), box.getWidth())
        y, x = np.mgrid[:self.dims[0], :self.dims[1]]
        x, y = x + box.getBeginX(), y + box.getBeginY()
        from lsst.geom import Box2I, Point2I, Extent2I
        inner = Box2I(
            Point2I(box.getBeginX() + 12, box.getBeginY() + 12),
            Extent2I(box.getWidth() - 24, box.getHeight() - 24))
        pos = [] if empty else l07.place(rng, inner, int(rng.randint(4, 8)),
                                         gap=20)
        self.pos = [(a + rng.uniform(-.4, .4), b + rng.uniform(-.4, .4))
                    for a, b in pos]
        noise = float(lsim.unit(rng)*10**rng.uniform(-2, 1))
        self.noise = [noise*rng.uniform(0.7, 1.5) for _ in self.bands]
        unlike = rng.uniform() < 0.15
        if unlike:
            # bands of quite different units
            self.noise = [noise*float(10**rng.uniform(-2, 2))
                          for _ in self.bands]
            ctx.count("unlike_bands", int(len(self.bands) > 1))
        amps = rng.uniform(150, 400, size=len(self.pos))
        exps, nexps, mexps = [], [], []
        msmall = 10**rng.uniform(-7, -1) if rng.uniform() < 0.15 else 1.0
        # star images are those of the PSF
        for j, b in enumerate(self.bands):
            fw = float(rng.uniform(0.75, 0.95))
            g1, g2 = rng.uniform(-0.04, 0.04, size=2)
            arr = lsim.gauss_psf(psf_dim, self.scale, fw, g1, g2)
            from lsst.meas.algorithms import KernelPsf
            from lsst.afw.math import FixedKernel
            from lsst.afw.image import ImageD
            psf = KernelPsf(FixedKernel(ImageD(arr)))
            s = fw/2.355/self.scale
            e1, e2 = 2*g1/(1 + g1**2 + g2**2), 2*g2/(1 + g1**2 + g2**2)
            im = np.full(self.dims, float(sky)*self.noise[j])
            for a, (px, py) in zip(amps, self.pos):
                dx, dy = x - px, y - py
                q = (dx**2*(1-e1) + dy**2*(1+e1) - 2*e2*dx*dy)/(
                    math.sqrt(1 - e1**2 - e2**2))
                im += a*self.noise[j]*np.exp(-0.5*q/s**2)
            e = lsim.make_exposure(
                rng, box, self.wcs, psf, b, noise=self.noise[j], image=im,
                dtype='f4', masked=False,
                # (without one band, pixels of unlike units are like defects)
                bad_var=0.01*(not unlike and rng.uniform() < 0.2))
            # bits which nothing leaves out
            from lsst.afw.image import Mask
            for n in ("CR", "SAT", "INTRP"):
                e.mask.array[rng.uniform(size=self.dims) < 0.03] |= \
                    Mask.getPlaneBitMask(n)
            exps.append(e)
            nexps.append(lsim.make_exposure(
                rng, box, self.wcs, psf, b, noise=self.noise[j], dtype='f4',
                masked=False))
            m = lsim.make_exposure(rng, box, self.wcs, psf, b, dtype='f4',
                                   masked=False)
            k = rng.uniform(size=self.dims) < rng.choice([0.02, 0.3, 1.0])
            m.image.array[:, :] = np.where(
                k, rng.uniform(0, 1, size=self.dims), 0)
            if rng.uniform() < 0.1:
                m.image.array[:, :] = 0
            m.image.array[:, :] *= msmall
            mexps.append(m)
        self.mb = lsim.multi(exps)
        self.nb = lsim.multi(nexps)
        self.mfrac = lsim.multi(mexps) if rng.uniform() < 0.75 else None
        self.ormasks = None
        if rng.uniform() < 0.75:
            self.ormasks = [np.where(
                rng.uniform(size=self.dims) < 0.5,
                rng.randint(0, 2**28, size=self.dims), 0).astype('i4')
                for _ in self.bands]
        ctx.count("no_mfrac", int(self.mfrac is None))
        ctx.count("no_ormasks", int(self.ormasks is None))
        # bands need not have the same weight
        self.wgts = [med_weight(e) for e in self.mb.singles]
        (self.cen, _) = l05.ref_psf(self.mb.singles[0], box)

    def avg_mfrac(self):
        if self.mfrac is None:
            return np.zeros(self.dims)
        w = np.array(self.wgts)
        return sum(a*np.asarray(m.image.array, dtype='f8')
                   for a, m in zip(w, self.mfrac.singles))/w.sum()

    def or_all(self):
        out = np.zeros(self.dims, dtype='i4')
        for o in self.ormasks or []:
            out |= o
        return out

    def clone(self):
        def dup(mb):
            if mb is None:
                return None
            out = []
            for e in mb.singles:
                n = type(e)(e, deep=True)
                n.setFilter(e.getFilter())
                n.setWcs(e.getWcs())
                n.setPsf(e.getPsf())
                out.append(n)
            return lsim.multi(out)
        return (dup(self.mb), dup(self.nb), dup(self.mfrac),
                copy.deepcopy(self.ormasks))

    def states(self):
        return (lsim.mbstate(self.mb), lsim.mbstate(self.nb),
                None if self.mfrac is None else lsim.mbstate(self.mfrac),
                snapshot(self.ormasks))


def shear_choice(ctx, rng, bands):
    shear = list(range(len(bands)))
    if rng.uniform() < 0.6:
        return None, shear
    k = int(rng.randint(1, len(bands) + 1))
    shear = sorted(int(v) for v in rng.choice(len(bands), size=k,
                                              replace=False))
    names = [bands[j] for j in shear]
    rng.shuffle(names)
    ctx.count("shear_subsets", int(k < len(bands)))
    return names, shear


def same_table(ctx, a, b, mech, **w):
    if a is None or b is None:
        ctx.check(a is None and b is None, mech, got=type(b).__name__, **w)
        return
    ctx.check(a.dtype == b.dtype and a.shape == b.shape, mech + "-shape",
              got=b.shape, want=a.shape, **w)
    if a.shape == b.shape and a.dtype == b.dtype:
        for n in a.dtype.names:
            ctx.equal(b[n], a[n], mech, column=n, **w)


def check_columns(ctx, f, res, t, shear, fail=False, stats=None):
    """columns of the original exposures"""
    from metadetect import procflags
    box = f.box
    mf, orm = f.avg_mfrac(), f.or_all()
    if fail is False:
        want, _ = ref_psf_stats(f.mb, box, shear, f.wgts)
    for row in res:
        r, c = (float(row['row']) - box.getBeginY(),
                float(row['col']) - box.getBeginX())
        ctx.check(row['row0'] == box.getBeginY()
                  and row['col0'] == box.getBeginX(), "box-origin")
        ir, ic = math.floor(r + 0.5), math.floor(c + 0.5)
        if 0 <= ir < f.dims[0] and 0 <= ic < f.dims[1]:
            ctx.check(row['ormask'] == orm[ir, ic], "ormask", t=t,
                      at=(r, c), got=int(row['ormask']),
                      want=int(orm[ir, ic]))
            ctx.count("ormask_rows", int(orm[ir, ic] != 0))
        w = ref_mfrac(mf, c, r, f.wcs, *f.cen)
        if w is not None:
            ctx.check(abs(row['mfrac'] - w) <= 2e-4*mf.max(), "mfrac", t=t,
                      at=(r, c),
                      got=float(row['mfrac']), want=w)
            ctx.count("mfrac_rows", int(w > 0))
        if fail:
            ctx.check(row['psfrec_flags'] & procflags.PSF_FAILURE != 0
                      and row['psfrec_navg'] == 0, "psfrec-failure",
                      got=int(row['psfrec_flags']))
        elif want is not None:
            ctx.check(row['psfrec_flags'] == 0
                      and row['psfrec_navg'] == len(shear), "psfrec-navg",
                      got=(int(row['psfrec_flags']),
                           int(row['psfrec_navg'])), want=len(shear))
            ctx.check(abs(row['psfrec_g'][0] - want['g1']) < 1e-3
                      and abs(row['psfrec_g'][1] - want['g2']) < 1e-3
                      and abs(row['psfrec_T'] - want['T']) < 2e-3,
                      "psfrec-values", t=t,
                      got=(list(row['psfrec_g']), float(row['psfrec_T'])),
                      want=want)
            ctx.count("psf_rows")
        if stats is not None and row['psfrec_flags'] == 0:
            ctx.check(row['psfrec_g'][0] == np.float64(stats['g1'])
                      and row['psfrec_g'][1] == np.float64(stats['g2'])
                      and row['psfrec_T'] == np.float64(stats['T']),
                      "psfrec-not-psf-stats")
        ctx.count("rows_checked")


def sheared_to(f, t, p):
    """where shear type t takes a position"""
    g1, g2 = l05.DIRS.get(t, (0.0, 0.0))
    dudx, dudy, dvdx, dvdy = lsim.true_jacobian(f.wcs, *f.cen)
    J = np.array([[dudx, dudy], [dvdx, dvdy]])
    S = np.array([[1+g1, g2], [g2, 1-g1]])/math.sqrt(1 - g1**2 - g2**2)
    c = np.array([f.box.getBeginX() + (f.dims[1]-1)/2,
                  f.box.getBeginY() + (f.dims[0]-1)/2])
    return np.linalg.solve(J, S @ J @ (np.array(p) - c)) + c


def displacement(ctx, f, res, t, thresh):
    """the stars moved as the shear of the type moves them"""
    num = den = 0.0
    n = 0
    for p in f.pos:
        q = sheared_to(f, t, p)
        d = np.hypot(res['col'] - q[0], res['row'] - q[1])
        k = int(np.argmin(d))
        if d[k] > 1.5 and thresh > 10:
            # the noise the threshold refers to includes the stars
            continue
        if not ctx.check(d[k] < 1.5, "star-lost", t=t, star=p,
                         got=float(d[k])):
            continue
        move = q - np.array(p)
        got = np.array([res['col'][k], res['row'][k]]) - np.array(p)
        num += got @ move
        den += move @ move
        n += 1
    if t == "noshear" or den < 0.5:
        return
    ctx.check(0.6 < num/den < 1.4, "sheared-position", t=t,
              got=float(num/den), stars=n)
    ctx.count("displacements")


def check_type(ctx, rng, f, res, t, stats, cfg, shear):
    """measurements in the table of type t are those of its images"""
    exps = []
    for j, e in enumerate(f.mb.singles):
        s = None if stats is None else stats[j]
        im, p = l05.reference(e.image.array, e, f.box, [t], s, False)
        nim, _ = l05.reference(f.nb.singles[j].image.array, f.nb.singles[j],
                               f.box, [t], s, True)
        from lsst.meas.algorithms import KernelPsf
        from lsst.afw.math import FixedKernel
        from lsst.afw.image import ImageD
        x = lsim.make_exposure(
            rng, f.box, f.wcs, KernelPsf(FixedKernel(ImageD(
                np.array(p, dtype='f8')))), f.bands[j], dtype='f8',
            masked=False)
        x.image.array[:, :] = im[t] + nim[t]
        x.variance.array[:, :] = 2*e.variance.array
        x.mask.array[:, :] = e.mask.array
        exps.append(x)
    done = 0
    for k in rng.permutation(res.size):
        row = res[k]
        if row['stamp_flags'] != 0 or done >= 3:
            continue
        c = float(row['col']), float(row['row'])
        # stars, whose positions have no other origin than the centroid
        if not any(np.hypot(c[0] - q[0], c[1] - q[1]) < 1.5 for q in
                   [sheared_to(f, t, p) for p in f.pos]):
            continue
        peak = (int(round(c[0] - row['col_diff'])),
                int(round(c[1] - row['row_diff'])))
        b, ok = l07.boundary(peak, cfg['stamp_size'], f.box)
        if not ctx.check(ok, "edge-not-flagged", at=c):
            continue
        obs = [l07.ref_obs(x, f.wcs, f.box, b, c, c) for x in exps]
        l07.compare_fits(ctx, row, obs, cfg, shear, rng, False)
        ctx.count("type_measured")
        done += 1


def make_config(ctx, rng, f, i):
    """(user configuration, what it amounts to)"""
    user = {}
    eff = dict(stamp_size=49, pgauss=dict(fwhm=2.0), thresh=5.0, sky=False,
               types=["noshear", "1p", "1m"], reconv="fitgauss",
               deblender="sdss")
    eff['shear_names'], shear = shear_choice(ctx, rng, f.bands)
    if eff['shear_names'] is not None or rng.uniform() < 0.2:
        user['shear_bands'] = eff['shear_names']
    if rng.uniform() < 0.8:
        user['stamp_size'] = eff['stamp_size'] = int(
            rng.choice([17, 21, 24, 25]))
    if rng.uniform() < 0.5:
        user['pgauss'] = dict(fwhm=float(rng.choice([1.2, 1.6, 2.5])))
        eff['pgauss'] = dict(user['pgauss'])
    if rng.uniform() < 0.6:
        eff['thresh'] = float(rng.choice([4.0, 7.5, 10.0, 20.0])) \
            if rng.uniform() < 0.5 else float(rng.uniform(4, 20))
        user['detect'] = {str(rng.choice(["thresh", "thresholdValue"])):
                          eff['thresh']}
    mc = {}
    if rng.uniform() < 0.7:
        mc['types'] = eff['types'] = [
            str(t) for t in rng.permutation(ALLT)[:rng.randint(1, 3)]]
    if rng.uniform() < 0.6:
        mc['reconv_type'] = eff['reconv'] = str(
            rng.choice(["gauss", "fitgauss"]))
    if mc:
        user['metacal'] = mc
    if rng.uniform() < 0.25:
        user['subtract_sky'] = eff['sky'] = True
    elif rng.uniform() < 0.2:
        user['subtract_sky'] = False
    if 'i' in f.bands and rng.uniform() < 0.3:
        user['deblender'] = eff['deblender'] = "scarlet"
    elif rng.uniform() < 0.2:
        user['deblender'] = "sdss"
    if not user and rng.uniform() < 0.5:
        user = None
    return user, eff, shear


def fam_run(ctx, rng, i):
    from metadetect.lsst import metadetect as md
    import lsst.meas.algorithms as alg
    import ngmix.log as nlog
    empty = i % 12 == 11
    sky = float(rng.choice([0, 30])) if i % 3 == 0 else 0.0
    f = Field(ctx, rng, empty=empty, sky=sky)
    user, eff, shear = make_config(ctx, rng, f, i)
    if sky and not eff['sky']:
        if user is None:
            user = {}
        user['subtract_sky'] = eff['sky'] = True
    if empty:
        # nothing to find
        user = dict(user or {})
        user['detect'] = {'thresh': 1000.0}
        eff['thresh'] = 1000.0
    fail = i % 9 == 4
    kw = {}
    want_stats = rng.uniform() < 0.6
    if want_stats or rng.uniform() < 0.3:
        kw['get_psf_stats'] = want_stats
    if f.mfrac is not None or rng.uniform() < 0.5:
        kw['mfrac_mbexp'] = f.mfrac
    if f.ormasks is not None or rng.uniform() < 0.5:
        kw['ormasks'] = f.ormasks
    if user is not None or rng.uniform() < 0.5:
        kw['config'] = user
    ctx.describe(box=repr(f.box), bands=f.bands, config=user, shear=shear,
                 pos=f.pos, mfrac=f.mfrac is not None, fail=fail,
                 ormasks=f.ormasks is not None)
    seed = int(rng.randint(2**31))
    spy = dict(med=[])
    copies = f.clone()
    orig_im = [np.array(e.image.array) for e in f.mb.singles]

    def run(mb, nb, extra):
        alg.EVENTS.clear()
        spy['med'] = []

        def look(e):
            spy['med'].append(float(np.median(e.image.array)))
        alg.FAULTS["detection"] = look
        n = [0]
        bad = int(seed % len(f.bands))

        def breakpsf(o, res):
            n[0] += 1
            if n[0] == bad + 1:
                res['flags'] = 2**9
            return res
        if fail:
            nlog.faults['psf_fit'] = breakpsf
        try:
            return md.run_metadetect(
                mbexp=mb, noise_mbexp=nb,
                rng=np.random.RandomState(seed), **extra)
        finally:
            alg.FAULTS.pop("detection", None)
            nlog.faults.pop('psf_fit', None)
    st, ucopy = f.states(), snapshot(user)
    np.random.seed(int(rng.randint(2**31)))
    res = run(f.mb, f.nb, kw)
    ev = list(alg.EVENTS)
    meds = list(spy['med'])
    ctx.check(snapshot(user) == ucopy, "config-modified")
    now = f.states()
    ctx.check(now[1:] == st[1:], "inputs-modified")
    if not eff['sky']:
        ctx.check(now[0] == st[0], "exposures-modified")
    if fail and res is None:
        ctx.count("psf_failed_runs")
        return
    # the types and nothing else
    keys = set(eff['types']) | ({'psf_stats'} if want_stats else set())
    ctx.require(isinstance(res, dict) and set(res) == keys, "types",
                got=sorted(res) if isinstance(res, dict) else res,
                want=sorted(keys))
    dets = [e for e in ev if e['what'] == "detection"]
    main = [e for e in dets if e['threshold'] == eff['thresh']]
    ctx.check(len(main) >= len(eff['types']), "detections-per-type",
              got=[e['threshold'] for e in dets], want=eff['thresh'])
    ctx.check(len(main) == len(dets), "sky-detection-threshold",
              got=[e['threshold'] for e in dets], want=eff['thresh'])
    nbg = sum(e['what'] == "background" for e in ev)
    if eff['sky']:
        ctx.check(nbg >= len(f.bands), "sky-not-subtracted", got=nbg)
        m = meds[-len(eff['types']):]
        ctx.check(all(abs(v) < 3*max(f.noise) for v in m), "sky-remains",
                  got=m, noise=f.noise)
        ctx.count("sky_runs")
    else:
        ctx.check(nbg == 0 and len(dets) == len(eff['types']),
                  "sky-subtracted-unasked", got=(nbg, len(dets)))
    kinds = [e['kind'] for e in ev if e['what'] == "deblend"]
    ctx.check(all(k == eff['deblender'] for k in kinds), "deblender",
              got=kinds, want=eff['deblender'])
    if not empty:
        ctx.check(len(kinds) == len(eff['types']), "deblends", got=kinds)
        ctx.count(eff['deblender'] + "_runs")
    stats = res.get('psf_stats')
    if want_stats:
        check_stats(ctx, stats, f.mb, f.box, shear, f.wgts, fail=fail)
    for t in eff['types']:
        tab = res[t]
        if empty:
            ctx.check(tab is None, "rows-of-nothing", t=t)
            ctx.count("no_source_runs")
            continue
        ctx.require(tab is not None and tab.size > 0, "no-rows", t=t)
        ctx.check(np.all(tab['stamp_size'] == eff['stamp_size']),
                  "stamp-size", got=int(tab['stamp_size'][0]),
                  want=eff['stamp_size'])
        names = ",".join(f.bands[j] for j in shear)
        ctx.check(tab['shear_bands'].shape[0] == tab.size, "shear-bands",
                  want=names)
        check_columns(ctx, f, tab, t, shear, fail=fail, stats=stats)
        displacement(ctx, f, tab, t, eff['thresh'])
        ctx.count("tables")
    if not eff['sky'] and not empty and not fail and (
            eff['deblender'] == "sdss"):
        t = eff['types'][int(rng.randint(len(eff['types'])))]
        pb = None
        if eff['reconv'] == 'fitgauss':
            pb = stats['perband'] if stats else None
            if pb is None:
                _, fits = ref_psf_stats(f.mb, f.box, shear, f.wgts)
                pb = np.zeros(len(fits), dtype=[
                    ('e1', 'f8'), ('e2', 'f8'), ('T', 'f8')])
                for j, q in enumerate(fits):
                    pb['e1'][j], pb['e2'][j] = q['e']
                    pb['T'][j] = q['T']
        check_type(ctx, rng, f, res[t], t, pb, eff, shear)
    # again, from the same inputs and seed
    mb2, nb2, mf2, or2 = copies
    kw2 = dict(kw)
    if 'mfrac_mbexp' in kw2:
        kw2['mfrac_mbexp'] = mf2
    if 'ormasks' in kw2:
        kw2['ormasks'] = or2
    for e, o in zip(mb2.singles, orig_im):
        ctx.equal(e.image.array, o, "machinery/copy")
    np.random.seed(int(rng.randint(2**31)))
    again = run(mb2, nb2, kw2)
    ctx.require(set(again) == set(res), "rerun-types", got=sorted(again))
    for t in eff['types']:
        same_table(ctx, res[t], again[t], "rerun-differs", t=t)
    ctx.count("reproduced")
    if fail:
        ctx.count("psf_failed_runs")
    ctx.count("runs")
    ctx.nontrivial("run", len(f.bands), len(shear), tuple(eff['types']),
                   eff['reconv'], eff['deblender'], eff['sky'],
                   f.mfrac is None, fail)
    ctx.sample(ctx.info)


# ------------------------------------------------------------------ direct
def fam_mfrac(ctx, rng, i):
    from metadetect.lsst import metadetect as md
    lsim.new_planes(rng)
    box = lsim.random_box(rng, 12, 70)
    wcs, scale = lsim.make_wcs(rng, lsim.box_center(box))
    dims = (box.getHeight(), box.getWidth())
    kind = ["sparse", "full", "one", "half"][i % 4]
    m = np.zeros(dims)
    if kind == "sparse":
        m = np.where(rng.uniform(size=dims) < 0.05, rng.uniform(size=dims), 0)
    elif kind == "full":
        m = rng.uniform(size=dims)
    elif kind == "one":
        m[:] = 1.0
    else:
        m[:, :dims[1]//2] = 1.0
    if rng.uniform() < 0.2:
        m *= 10**rng.uniform(-7, -1)
    top = max(m.max(), 1e-30)
    fwhm = None if rng.uniform() < 0.3 else float(
        rng.choice([0.6, 1.2, 2.0]))
    c = [math.floor(v + 0.5) for v in lsim.box_center(box)]
    from lsst.geom import Point2D
    from metadetect.lsst import util
    e = lsim.make_exposure(rng, box, wcs, None, 'r')
    jac = util.get_jacobian(exp=e, cen=Point2D(*c))
    n = 12
    x = rng.uniform(-0.5, dims[1] - 0.5, size=n)
    y = rng.uniform(-0.5, dims[0] - 0.5, size=n)
    far = 60
    x[:3] = [-far, dims[1] + far, rng.uniform(-3, 0)]
    y[2:5] = [rng.uniform(0, dims[0]), -far, dims[0] + far]
    # off a corner: the box around the position reaches the image, the
    # aperture does not
    dud = lsim.true_jacobian(wcs, *c)
    rad = 5*(fwhm or 1.2)/2.3548200450309493/math.sqrt(
        abs(dud[0]*dud[3] - dud[1]*dud[2]))
    # and little of the aperture left
    x[6] = rng.choice([-1, 1])*rng.uniform(0.8, 1.0)*rad
    x[6] = x[6] if x[6] < 0 else dims[1] - 1 + x[6]
    x[5] = rng.choice([-0.85*rad, dims[1] - 1 + 0.85*rad])
    y[5] = rng.choice([-0.85*rad, dims[0] - 1 + 0.85*rad])
    dt = rng.choice(['f4', 'f8'])
    x, y = x.astype(dt), y.astype(dt)
    before = snapshot([m, x, y]), lsim.jac_tuple(jac) + tuple(lsim.jac_cen(
        jac))
    ctx.describe(dims=dims, kind=kind, fwhm=fwhm, x=x, y=y)
    got = md.measure_weighted_mfrac(mfrac=m, x=x, y=y, jac=jac, fwhm=fwhm)
    ctx.check(snapshot([m, x, y]) == before[0] and lsim.jac_tuple(jac)
              + tuple(lsim.jac_cen(jac)) == before[1], "arguments-modified")
    ctx.require(len(got) == n, "mfrac-length", got=len(got))
    for k in range(n):
        w = ref_mfrac(m, float(x[k]), float(y[k]), wcs, c[0], c[1],
                      fwhm or 1.2)
        if w is None:
            # nothing of the aperture is in the image
            far_away = (x[k] in (-far, dims[1] + far)
                        or y[k] in (-far, dims[0] + far))
            if k == 5:
                sx = x[5] < 0 or x[5] > dims[1] - 1
                sy = y[5] < 0 or y[5] > dims[0] - 1
                px = 0 if x[5] < 0 else dims[1] - 1
                py = 0 if y[5] < 0 else dims[0] - 1
                ax, ay = px - float(x[5]), py - float(y[5])
                r = math.hypot(dud[0]*ax + dud[1]*ay,
                               dud[2]*ax + dud[3]*ay)
                far_away = sx and sy and r > 1.05*5*(
                    fwhm or 1.2)/2.3548200450309493
                ctx.count("corner_positions", bool(far_away))
            if far_away:
                ctx.check(got[k] == 1.0, "mfrac-off-image",
                          at=(x[k], y[k]), got=float(got[k]))
                ctx.count("off_image")
            continue
        ctx.check(abs(got[k] - w) < 2e-4*top, "mfrac-value", at=(x[k], y[k]),
                  got=float(got[k]), want=w, fwhm=fwhm)
        ctx.count("mfrac_values")
    ctx.nontrivial("mfrac", kind, fwhm, dims[0] > dims[1])


def fam_average(ctx, rng, i):
    """average over bands, weights, or of the or-masks"""
    from metadetect.lsst import metadetect as md
    f = Field(ctx, rng, empty=True, psf_dim=17)
    for e in f.mb.singles:
        e.variance.array[:, :] *= float(10**rng.uniform(-1, 1))
    if i % 3 == 0:
        e = f.mb.singles[0]
        k = rng.uniform(size=f.dims) < 0.6
        vals = np.array([np.inf, 0.0, np.nan, -1.0])
        e.variance.array[k] = vals[rng.randint(4, size=k.sum())]
    f.wgts = [med_weight(e) for e in f.mb.singles]
    st = f.states()
    ctx.describe(bands=f.bands, wgts=f.wgts)
    got, w = md.get_mfrac_mbexp(f.mb, f.mfrac)
    ctx.close(np.array(w), np.array(f.wgts), "band-weights", rtol=1e-5)
    ctx.close(got, f.avg_mfrac(), "mfrac-average", rtol=1e-5, atol=1e-6)
    om = md.combine_ormasks(f.mb, f.ormasks)
    ctx.equal(np.asarray(om), f.or_all(), "ormask-or")
    om[:, :] = 77
    got[:, :] = 5
    ctx.check(f.states() == st, "inputs-modified/average")
    ctx.count("ormask_combined", int(f.ormasks is not None))
    if i % 4 == 1:
        j = int(rng.randint(len(f.bands)))
        f.mb.singles[j].variance.array[:, :] = float(
            rng.choice([np.inf, 0, np.nan]))
        ctx.expect_raises(lambda: md.get_mfrac_mbexp(f.mb, f.mfrac),
                          ValueError, "band-without-variance")
        ctx.count("dropped_bands")
    ctx.nontrivial("average", len(f.bands), f.mfrac is None,
                   f.ormasks is None)


def fam_ormask(ctx, rng, i):
    """or-mask values at positions, also just off the image"""
    from metadetect.lsst import metadetect as md
    dims = (int(rng.randint(4, 40)), int(rng.randint(4, 40)))
    row0, col0 = (int(v) for v in rng.choice([0, 13, -7, 2000], size=2))
    ormask = (2**rng.randint(0, 31, size=dims)).astype('i4')
    ormask[rng.uniform(size=dims) < 0.2] = 0
    n = int(rng.randint(0, 30))
    res = np.zeros(n, dtype=[
        ('row0', 'i4'), ('col0', 'i4'), ('row', 'f4'), ('col', 'f4'),
        ('ormask', 'i4'), ('other', 'f8')])
    r = rng.uniform(-0.45, dims[0]-0.55, size=n)
    c = rng.uniform(-0.45, dims[1]-0.55, size=n)
    off = rng.uniform(size=n) < 0.3
    r[off] = rng.choice([-1.3, -0.7, dims[0]-0.3, dims[0]+0.8],
                        size=off.sum())
    side = rng.uniform(size=n) < 0.4
    c[side] = rng.choice([-1.3, -0.7, dims[1]-0.3, dims[1]+0.8],
                         size=side.sum())
    if n > 0 and rng.uniform() < 0.5:
        # on pixel centres
        r[:n//2] = np.rint(r[:n//2])
        c[:n//2] = np.rint(c[:n//2])
    res['row0'], res['col0'] = row0, col0
    res['row'], res['col'] = r + row0, c + col0
    res['other'] = rng.normal(size=n)
    before, bm = res.copy(), snapshot(ormask)
    ctx.describe(dims=dims, row0=row0, col0=col0, r=r, c=c)
    md.add_ormask(ormask, res)
    ctx.unchanged(bm, ormask, "ormask-modified")
    for name in ('row0', 'col0', 'row', 'col', 'other'):
        ctx.equal(res[name], before[name], "column-changed/" + name)
    for k in range(n):
        y = float(before['row'][k]) - row0
        x = float(before['col'][k]) - col0
        near = [abs(v - math.floor(v) - 0.5) < 1e-3 for v in (y, x)]
        if any(near):
            continue
        iy = min(max(math.floor(y + 0.5), 0), dims[0]-1)
        ix = min(max(math.floor(x + 0.5), 0), dims[1]-1)
        ctx.check(res['ormask'][k] == ormask[iy, ix], "ormask-at-position",
                  at=(y, x), got=int(res['ormask'][k]),
                  want=int(ormask[iy, ix]))
        ctx.count("ormask_positions")
        ctx.count("ormask_off_image", int(y < -0.5 or x < -0.5
                                          or y > dims[0]-0.5
                                          or x > dims[1]-0.5))
    ctx.nontrivial("ormask", n > 0, row0, col0, dims[0] > dims[1])


def fam_psf(ctx, rng, i):
    from metadetect.lsst import metadetect as md
    import ngmix.log as nlog
    from lsst.meas.algorithms import VaryingPsf
    from lsst.pex.exceptions import InvalidParameterError
    f = Field(ctx, rng, empty=True, psf_dim=int(rng.choice([21, 25, 31])))
    names, shear = shear_choice(ctx, rng, f.bands)
    span = 4 if rng.uniform() < 0.25 else 1
    wgts = [float(10**rng.uniform(-span, span)) for _ in f.bands]
    mode = i % 6
    fail = False
    bad = int(rng.randint(len(f.bands)))
    nlog.faults.pop('psf_fit', None)
    if mode == 4:
        # far from round
        for e in f.mb.singles:
            g = rng.uniform(0.2, 0.4)
            a = rng.uniform(0, 2*np.pi) if f.mb.singles[0] is e else a
            arr = lsim.gauss_psf(31, f.scale, rng.uniform(0.8, 0.9),
                                 g*np.cos(a), g*np.sin(a))
            e.setPsf(VaryingPsf(lambda x, y, arr=arr: arr/arr.sum()))
        ctx.count("elongated_psfs")
    elif mode == 5:
        # a fit that gives up by raising
        n = [0]

        def giveup(o, res):
            n[0] += 1
            if n[0] == bad + 1:
                raise ngmix.gexceptions.GMixRangeError("no shape")
            return res
        nlog.faults['psf_fit'] = giveup
        fail = True
        ctx.count("psf_exceptions")
    elif mode == 1:
        for j, e in enumerate(f.mb.singles):
            e.setPsf(lsim.make_psf(rng, f.scale, varying=True))
    elif mode == 2:
        def nothing(x, y):
            raise InvalidParameterError("no psf here")
        f.mb.singles[bad].setPsf(VaryingPsf(nothing))
        fail = True
        ctx.count("missing_psf")
    elif mode == 3:
        n = 21
        y, x = np.mgrid[:n, :n] - 10.0
        ring = -np.exp(-0.5*(x**2 + y**2)/9.0)
        kind = rng.randint(2)

        def hopeless(a, b):
            return ring if kind else np.zeros((n, n)) - 1e-3
        f.mb.singles[bad].setPsf(VaryingPsf(hopeless))
        if ref_psf_fit(f.mb.singles[bad], f.box)['flags'] == 0:
            return
        fail = True
    st = f.states()
    ctx.describe(bands=f.bands, names=names, wgts=wgts, mode=mode, bad=bad)
    try:
        got = md.fit_original_psfs_mbexp(
            mbexp=f.mb, rng=np.random.RandomState(rng.randint(2**31)),
            wgts=wgts, config=dict(shear_bands=names))
    finally:
        nlog.faults.pop('psf_fit', None)
    ctx.check(f.states() == st, "inputs-modified/psf")
    check_stats(ctx, got, f.mb, f.box, shear, wgts, fail=fail)
    ctx.nontrivial("psf", len(f.bands), len(shear), mode)


def fam_refuse(ctx, rng, i):
    from metadetect.lsst import metadetect as md
    from lsst.pex.config import FieldValidationError
    f = Field(ctx, rng)
    mode = i % 6
    cfg, err = [
        ({'shear_bands': ['nosuch']}, RuntimeError),
        ({'shear_bands': [f.bands[0], 'nosuch']}, RuntimeError),
        ({'metacal': {'types': ['noshear', '3p']}}, FieldValidationError),
        ({'metacal': {'reconv_type': 'other'}}, Exception),
        ({'deblender': 'other'}, Exception),
        ({'unknown_key': 3}, Exception)][mode]
    ctx.describe(config=cfg, bands=f.bands)
    before = snapshot(cfg)
    st = f.states()
    ctx.expect_raises(
        lambda: md.run_metadetect(
            mbexp=f.mb, noise_mbexp=f.nb, rng=np.random.RandomState(1),
            config=cfg), err, "configuration-accepted", config=cfg)
    ctx.check(snapshot(cfg) == before, "config-modified/refused")
    ctx.check(f.states() == st, "inputs-modified/refused")
    ctx.count("refused")
    ctx.nontrivial("refuse", mode)


FAMILIES = {"run": (fam_run, 48, 900), "mfrac": (fam_mfrac, 100, 3000),
            "average": (fam_average, 40, 800), "psf": (fam_psf, 60, 1200),
            "ormask": (fam_ormask, 150, 3000),
            "refuse": (fam_refuse, 12, 60)}
