import math
import numpy as np
import ngmix
import lsim
from mon import snapshot

PROPERTY = "L07"
RULE = ("hand-made catalogues of 2-12 sources (isolated, blends of 2-4 "
        "children with their parents before, between or after them), peaks at "
        "and over the stamp border, unusable variances over whole stamps, "
        "undefined centroids, PSFs that cannot be constructed, with and "
        "without models; and whole detect-deblend-measure runs on planted "
        "stars; distinct by (bands, shear bands, blends, kinds of failure, "
        "stamp size)")
REQUIRED = ["far_centroids", "rows_checked", "edge_rows", "zero_weight_rows", "no_data_rows",
            "nan_centroids", "blended_rows", "bmask_rows", "offset_cases",
            "nonsquare", "pgauss_compared", "gauss_compared",
            "model_rows", "no_children", "shear_subsets", "single_band",
            "stars_found", "scarlet_runs", "sdss_runs", "nothing_usable",
            "masked_stars", "dropouts", "undeblended",
            "empty_catalogues"]
ASSUMPTIONS = [
    "fits of an observation are the real fitting functions', run on "
    "observations the check builds itself (decided by F and G properties)",
    "gauss fits start from random guesses: compared where both converged",
    "centroids, detection and deblending are the stand-in's or injected"]


def median_weight(v):
    k = v > 0
    if not k.any():
        return None
    m = np.median(v[k])
    return None if not np.isfinite(m) else 1.0/m


def ref_obs(exp, wcs, box, b, cen, at, image=None):
    """stamp [x0, x1, y0, y1) of exp as an observation centred at cen; None
    when no pixel is usable"""
    from lsst.geom import Point2D
    s = (slice(b[2] - box.getBeginY(), b[3] - box.getBeginY()),
         slice(b[0] - box.getBeginX(), b[1] - box.getBeginX()))
    w = median_weight(exp.variance.array[s])
    if w is None:
        return None
    dudx, dudy, dvdx, dvdy = lsim.true_jacobian(wcs, at[0], at[1])
    jac = ngmix.Jacobian(row=at[1] - b[2], col=at[0] - b[0], dudcol=dudx,
                         dudrow=dudy, dvdcol=dvdx, dvdrow=dvdy)
    p = np.array(exp.getPsf().computeKernelImage(
        Point2D(*cen)).array, dtype='f8')
    pc = (np.array(p.shape) - 1)/2.0
    pj = jac.copy()
    pj.set_cen(row=pc[0], col=pc[1])
    im = exp.image.array if image is None else image
    im = np.array(im[s], dtype='f8')
    return ngmix.Observation(
        im, weight=np.full(im.shape, w), jacobian=jac,
        bmask=np.array(exp.mask.array[s]),
        psf=ngmix.Observation(p, jacobian=pj, weight=np.full(
            p.shape, 1/(p.max()*1e-4)**2)))


def near(got, want, scale, tol):
    return np.abs(got - want) <= tol*(np.abs(want) + scale)


def compare_fits(ctx, row, obs, cfg, shear, rng, alone):
    """the row's measurements are those of its own observation"""
    from metadetect.fitting import fit_mbobs_wavg, fit_mbobs_gauss
    mb = ngmix.MultiBandObsList()
    for o in obs:
        ol = ngmix.ObsList()
        ol.append(o)
        mb.append(ol)
    want = fit_mbobs_wavg(
        mbobs=mb, fitter=ngmix.prepsfmom.PGaussMom(
            fwhm=cfg['pgauss']['fwhm']), bmask_flags=0)[0]
    # ratios of sums that vanish decide nothing
    snr = np.atleast_1d(want['pgauss_band_flux']
                        / want['pgauss_band_flux_err'])
    weak = (np.any(np.abs(snr) < 1) or np.abs(want['pgauss_s2n']) < 3
            or np.abs(want['pgauss_T']/want['pgauss_T_err']) < 0.02)
    if not weak:
        ctx.check(row['pgauss_flags'] == want['pgauss_flags'],
                  "pgauss-flags", got=int(row['pgauss_flags']),
                  want=int(want['pgauss_flags']))
    for n in ('pgauss_flags', 'pgauss_s2n', 'pgauss_T', 'pgauss_T_err',
              'pgauss_T_flags', 'pgauss_T_ratio', 'pgauss_band_flux',
              'pgauss_band_flux_err', 'pgauss_band_flux_flags'):
        ctx.require(n in row.dtype.names, "pgauss-column-missing/" + n)
    for n in want.dtype.names:
        if ('psf' in n or n in ('pgauss_g', 'pgauss_g_cov', 'shear_bands')
                or n not in row.dtype.names
                or weak and 'band_flux' not in n or weak and 'flags' in n):
            continue
        g, w = np.atleast_1d(row[n]), np.atleast_1d(want[n])
        if w.dtype.kind != 'f':
            ctx.equal(g, w, "pgauss-value/" + n)
            continue
        scale = {'pgauss_T_ratio': 1, 'pgauss_T': .05}.get(n, 0)
        bad = ~(near(g, w, scale, 1e-2 if n == 'pgauss_T_err' else 1e-3)
                | (np.isnan(g) & np.isnan(w)))
        e = n + '_err'
        if bad.any() and e in want.dtype.names:
            bad &= ~(np.abs(g - w) <= 1e-2*np.atleast_1d(want[e]))
        elif bad.any() and n == 'pgauss_T_ratio':
            # a hundredth of the error of the size, of faint sources
            bad &= ~(np.abs(g/w - 1) <= 1e-2*want['pgauss_T_err']
                     / np.abs(want['pgauss_T']))
        ctx.check(not bad.any(), "pgauss-value/" + n, got=g, want=w)
    ctx.count("pgauss_compared")

    def refit():
        r2 = np.random.RandomState(rng.randint(2**30))
        runner = ngmix.runners.PSFRunner(
            fitter=ngmix.admom.AdmomFitter(rng=r2),
            guesser=ngmix.guessers.GMixPSFGuesser(
                rng=r2, ngauss=1, guess_from_moms=True), ntry=4)
        return fit_mbobs_gauss(mbobs=mb, bmask_flags=0, psf_runner=runner,
                               rng=r2, shear_bands=shear)[0]
    want = refit()
    ctx.equal(row['shear_bands'], want['shear_bands'], "shear-bands")
    if want['gauss_psf_flags'] == 0 and row['gauss_psf_flags'] == 0:
        ctx.check(near(row['gauss_psf_T'], want['gauss_psf_T'], 0, 1e-3),
                  "gauss-psf", got=row['gauss_psf_T'],
                  want=want['gauss_psf_T'])
        ctx.check(np.all(near(row['gauss_psf_g'], want['gauss_psf_g'],
                              1.0, 1e-3)), "gauss-psf",
                  got=row['gauss_psf_g'], want=want['gauss_psf_g'])
    if not alone or want['gauss_flags'] != 0 or row['gauss_flags'] != 0 \
            or want['gauss_s2n'] < 15 or not want['gauss_T_ratio'] > 0.2:
        return
    ctx.equal(np.isnan(np.atleast_1d(row['gauss_band_flux'])),
              np.isnan(np.atleast_1d(want['gauss_band_flux'])),
              "gauss-bands")
    # guesses are random and optima need not be unique
    for _ in range(8):
        if agrees(row, want):
            ctx.count("gauss_compared")
            return
        ctx.count("gauss_refits")
        want = refit()
        if want['gauss_flags'] != 0:
            return
    ctx.check(False, "gauss-values", got=str(row), want=str(want))


def agrees(row, want):
    for n, sc, e in (('gauss_s2n', 0, 1.0), ('gauss_T', 0, None),
                     ('gauss_g', 0.2, None), ('gauss_band_flux', 0, None)):
        g, w = np.atleast_1d(row[n]), np.atleast_1d(want[n])
        if n == 'gauss_g':
            err = np.sqrt(np.abs(np.diag(want['gauss_g_cov'])))
        else:
            err = e or np.atleast_1d(want[n + '_err'])
        ok = (np.abs(g - w) <= 0.1*(np.abs(w) + sc) + err)
        if not np.all(ok | np.isnan(w)):
            return False
    return True


def check_row(ctx, row, exp, box, wcs, cfg, cen, peak, flags, bmask,
              fpeak=None):
    """the descriptive columns"""
    x0, y0 = box.getBeginX(), box.getBeginY()
    nan = not np.isfinite(cen[1])
    pos = (fpeak or (float(peak[0]), float(peak[1]))) if nan else cen
    ctx.check(row['stamp_size'] == cfg['stamp_size'], "stamp-size",
              got=int(row['stamp_size']))
    ctx.check(row['row0'] == y0 and row['col0'] == x0, "box-origin",
              got=(int(row['row0']), int(row['col0'])), want=(y0, x0))
    ctx.check(row['row'] == np.float32(pos[1])
              and row['col'] == np.float32(pos[0]), "position",
              got=(float(row['row']), float(row['col'])), want=pos)
    if nan:
        ctx.check(np.isnan(row['row_diff']) and np.isnan(row['col_diff']),
                  "undefined-offset", got=(row['row_diff'], row['col_diff']))
        ctx.count("nan_centroids")
    else:
        ctx.check(abs(row['row_diff'] - (cen[1] - peak[1])) < 1e-4
                  and abs(row['col_diff'] - (cen[0] - peak[0])) < 1e-4,
                  "offset-from-peak", got=(row['row_diff'], row['col_diff']),
                  want=(cen[1] - peak[1], cen[0] - peak[0]))
    from lsst.geom import Point2D
    s = wcs.pixelToSky(Point2D(*pos))
    ra, dec = s.getRa().asDegrees(), s.getDec().asDegrees()
    d = (row['ra'] - ra + 180) % 360 - 180
    ctx.check(abs(d)*math.cos(math.radians(dec)) < 1e-7
              and abs(row['dec'] - dec) < 1e-7, "sky-position",
              got=(row['ra'], row['dec']), want=(ra, dec))
    ctx.check(row['stamp_flags'] == flags, "stamp-flags",
              got=int(row['stamp_flags']), want=flags)
    ctx.check(row['bmask'] == bmask, "bmask", got=int(row['bmask']),
              want=bmask)
    if bmask != 0:
        ctx.count("bmask_rows")


def failed_row(ctx, row, shear):
    from metadetect import procflags
    ctx.equal(str(row['shear_bands']), "".join(str(j) for j in sorted(shear)),
              "shear-bands/failed-row")
    ctx.count("failed_rows")
    for m in ('gauss', 'pgauss'):
        ctx.check(row[m + '_flags'] == procflags.NO_ATTEMPT,
                  "failed-row-flags", model=m, got=int(row[m + '_flags']))
        for n in ('s2n', 'T', 'T_err', 'band_flux'):
            c = '%s_%s' % (m, n)
            if c in row.dtype.names:
                ctx.check(np.all(np.isnan(row[c])), "failed-row-values",
                          column=c, got=row[c])


def boundary(peak, size, box):
    h = size//2
    b = [peak[0] - h, peak[0] + h + 1, peak[1] - h, peak[1] + h + 1]
    ok = (b[0] >= box.getBeginX() and b[1] <= box.getEndX()
          and b[2] >= box.getBeginY() and b[3] <= box.getEndY())
    return b, ok


def config_for(rng, bands, ctx):
    cfg = dict(pgauss=dict(fwhm=float(rng.choice([1.2, 2.0, 2.5]))),
               stamp_size=int(rng.choice([17, 24, 25, 33])),
               shear_bands=None, deblender='sdss')
    shear = list(range(len(bands)))
    if len(bands) > 1 and rng.uniform() < 0.4:
        k = int(rng.randint(1, len(bands)))
        shear = sorted(int(v) for v in rng.choice(len(bands), size=k,
                                                  replace=False))
        names = [bands[j] for j in shear]
        rng.shuffle(names)
        cfg['shear_bands'] = names
        ctx.count("shear_subsets")
    return cfg, shear


def run_measure(ctx, rng, mb, det, cat, model_data, cfg, cens):
    """measure() with centroids injected by source id"""
    from metadetect.lsst import measure
    from lsst.meas import base
    from lsst.geom import Point2D
    task = measure.get_detect_and_deblend_task(rng=rng).meas
    before = snapshot(cfg)
    st, dst = lsim.mbstate(mb), lsim.state(det)
    base.CENTROID_HOOK[0] = lambda s: Point2D(*cens[s.getId()])
    try:
        res = measure.measure(
            mbexp=mb, detexp=det, sources=cat, model_data=model_data,
            meas_task=task, config=cfg, rng=rng)
    finally:
        base.CENTROID_HOOK[0] = None
    ctx.check(snapshot(cfg) == before, "config-modified")
    ctx.check(lsim.mbstate(mb) == st, "exposures-modified")
    ctx.check(lsim.state(det) == dst, "detection-exposure-modified")
    return res


def matched(ctx, res, ids, cens, peaks):
    """row of each source by its (distinct) position"""
    ctx.require(res is not None and res.size == len(ids), "row-count",
                got=None if res is None else res.size, want=len(ids))
    out = {}
    for sid in ids:
        c = cens[sid]
        if not np.isfinite(c[1]):
            c = peaks[sid]
        d = np.hypot(res['row'] - c[1], res['col'] - c[0])
        k = np.where(d < 2e-3)[0]
        ctx.require(k.size == 1, "row-of-source", source=sid, at=c,
                    rows=[(float(a), float(b)) for a, b in
                          zip(res['row'], res['col'])])
        out[sid] = int(k[0])
    ctx.check(len(set(out.values())) == len(ids), "row-shared")
    return out


def place(rng, box, n, gap=3):
    out = []
    for _ in range(400):
        if len(out) == n:
            break
        x = int(rng.randint(box.getBeginX(), box.getEndX()))
        y = int(rng.randint(box.getBeginY(), box.getEndY()))
        if all(max(abs(x-a), abs(y-b)) >= gap for a, b in out):
            out.append((x, y))
    return out


def build(ctx, rng, i):
    from lsst.afw import table
    from lsst.afw.detection import Footprint
    from lsst.afw.geom import SpanSet
    from lsst.geom import Box2I, Point2I, Extent2I
    lsim.new_planes(rng)
    table.ID_START[0] = int(rng.choice([1, 1, 1000, 2**34]))
    box = lsim.random_box(rng, 50, 100)
    ctx.count("offset_cases", int(box.getBeginX() != 0))
    ctx.count("nonsquare", int(box.getWidth() != box.getHeight()))
    wcs, scale = lsim.make_wcs(rng, lsim.box_center(box))
    bands = lsim.bands_of(rng, 1, 3 if rng.uniform() < .9 else 6)
    ctx.count("single_band", int(len(bands) == 1))
    peaks = place(rng, box, int(rng.randint(2, 9)))
    dims = (box.getHeight(), box.getWidth())
    y, x = np.mgrid[:dims[0], :dims[1]]
    exps = []
    unit = lsim.unit(rng)
    noise = float(unit*10**rng.uniform(-2, 1))
    base = np.zeros(dims)
    for px, py in peaks:
        s = rng.uniform(1.5, 3)
        base += rng.uniform(20, 150)*noise*np.exp(-0.5*(
            (x - px + box.getBeginX())**2
            + (y - py + box.getBeginY())**2)/s**2)
    for b in bands:
        e = lsim.make_exposure(
            rng, box, wcs, lsim.make_psf(rng, scale, dim=int(
                rng.choice([15, 21, 25]))), b, noise=noise,
            image=base*rng.uniform(0.5, 2),
            dtype='f4', bad_var=0.03*(rng.uniform() < 0.3))
        # every source has mask bits of its own at its peak
        for j, (px, py) in enumerate(peaks):
            e.mask.array[py - box.getBeginY(), px - box.getBeginX()] = \
                int(rng.randint(0, 2**20))
        exps.append(e)
    if i % 3 == 0:
        # a band without usable variance around one of the sources
        j = int(rng.randint(len(exps)))
        px, py = peaks[int(rng.randint(len(peaks)))]
        a, b = py - box.getBeginY(), px - box.getBeginX()
        exps[j].variance.array[max(0, a-20):a+21, max(0, b-20):b+21] = \
            float(rng.choice([0.0, np.inf, -1.0]))
    mb = lsim.multi(exps)
    det = lsim.make_exposure(rng, box, wcs, exps[0].getPsf(), bands[0],
                             noise=noise, image=base, dtype='f4')
    for j, (px, py) in enumerate(peaks):
        det.mask.array[py - box.getBeginY(), px - box.getBeginX()] = \
            int(rng.choice([0, rng.randint(0, 2**20)]))

    # peaks may have subpixel positions
    frac = {p: (0.0, 0.0) if rng.uniform() < 0.5 or min(p) < 0
            else tuple(rng.uniform(0, 0.99, size=2)) for p in peaks}

    def foot(pts):
        sp = [(px+a, py+b) for px, py in pts
              for a in (-1, 0, 1) for b in (-1, 0, 1)
              if box.contains(Point2I(px+a, py+b))]
        sp = sorted(set(sp))
        f = Footprint(SpanSet(np.array([s[1] for s in sp]),
                              np.array([s[0] for s in sp])))
        for k, (px, py) in enumerate(pts):
            fx, fy = frac[px, py]
            f.addPeak(px + fx, py + fy, float(100 - k))
        return f
    # groups: singles and blends, with the children after all parents (as the
    # deblender leaves them) or right after their own
    groups, left = [], list(peaks)
    while left:
        k = int(rng.choice([1, 1, 2, 3, 4]))
        groups.append(left[:k])
        left = left[k:]
    cat = table.SourceCatalog()
    ids, peak, blended, pkf = [], {}, set(), {}
    late = rng.uniform() < 0.6
    todo = []

    def children(par, pts):
        for p in pts:
            r = cat.addNew()
            r.setParent(par.getId())
            r.set("deblend_nChild", 0)
            r.setFootprint(foot([p]))
            ids.append(r.getId())
            peak[r.getId()] = p
            blended.add(r.getId())
    for g in groups:
        r = cat.addNew()
        r.setFootprint(foot(g))
        if len(g) == 1 or rng.uniform() < 0.2:
            # alone, or left as it is by the deblender
            ctx.count("undeblended", int(len(g) > 1))
            r.set("deblend_nChild", 0)
            ids.append(r.getId())
            peak[r.getId()] = g[0]
            continue
        r.set("deblend_nChild", len(g))
        if late:
            todo.append((r, g))
        else:
            children(r, g)
    for r, g in todo:
        children(r, g)
    cens = {}
    for s in ids:
        px, py = peak[s]
        fpk = cat.find(s).getFootprint().getPeaks()[0]
        pkf[s] = (fpk.getFx(), fpk.getFy())
        cens[s] = (px + float(rng.uniform(-1.2, 1.2)),
                   py + float(rng.uniform(-1.2, 1.2)))
        if rng.uniform() < 0.1:
            # a centroid well away from its peak is still the centroid
            cens[s] = (px + float(rng.uniform(-9, 9)),
                       py + float(rng.uniform(-9, 9)))
            ctx.count("far_centroids")
        if rng.uniform() < 0.12:
            cens[s] = (np.nan, np.nan)
    return (box, wcs, scale, bands, mb, det, cat, ids, peak, cens, blended,
            pkf, unit)


def det_bit():
    from lsst.afw.image import Mask
    return Mask.getPlaneBitMask('DETECTED')


def bmask_at(det, box, p):
    return int(det.mask.array[p[1] - box.getBeginY(),
                              p[0] - box.getBeginX()]) & ~det_bit()


def fam_measure(ctx, rng, i):
    from metadetect import procflags
    (box, wcs, scale, bands, mb, det, cat, ids, peak, cens, blended,
     pkf, unit) = build(ctx, rng, i)
    cfg, shear = config_for(rng, bands, ctx)
    ctx.describe(box=repr(box), bands=bands, shear=shear, n=len(ids),
                 peaks=list(peak.values()), cens=list(cens.values()),
                 size=cfg['stamp_size'], blended=len(blended))
    res = run_measure(ctx, rng, mb, det, cat, None, cfg, cens)
    rows = matched(ctx, res, ids, cens, pkf)
    kinds = set()
    for s in ids:
        row = res[rows[s]]
        p, c = peak[s], cens[s]
        b, ok = boundary(p, cfg['stamp_size'], box)
        flags, obs = 0, None
        at = c if np.isfinite(c[1]) else (float(p[0]), float(p[1]))
        if not ok:
            flags = procflags.EDGE_HIT
            ctx.count("edge_rows")
        else:
            for e in mb.singles:
                sl = (slice(b[2] - box.getBeginY(), b[3] - box.getBeginY()),
                      slice(b[0] - box.getBeginX(), b[1] - box.getBeginX()))
                if median_weight(e.variance.array[sl]) is None:
                    flags = procflags.ZERO_WEIGHTS
                    ctx.count("zero_weight_rows")
                    break
                if (not np.isfinite(c[1])
                        and type(e.getPsf()).__name__ == "VaryingPsf"):
                    flags = procflags.NO_DATA
                    ctx.count("no_data_rows")
                    break
        kinds.add(flags)
        check_row(ctx, row, det, box, wcs, cfg, c, p, flags,
                  bmask_at(det, box, p), pkf[s])
        if s in blended:
            ctx.count("blended_rows")
        if flags:
            failed_row(ctx, row, shear)
        else:
            obs = [ref_obs(e, wcs, box, b, at, at) for e in mb.singles]
            # (where the joint fit stops depends on the units of the fluxes)
            compare_fits(ctx, row, obs, cfg, shear, rng, unit == 1 and all(
                max(abs(q[0]-p[0]), abs(q[1]-p[1])) > cfg['stamp_size']
                for t, q in peak.items() if t != s))
        ctx.count("rows_checked")
    ctx.nontrivial(len(bands), len(shear), len(blended), sorted(kinds),
                   cfg['stamp_size'])
    ctx.sample(ctx.info)


def fam_model(ctx, rng, i):
    """with models: every source is measured alone"""
    from checks import l04
    from metadetect import procflags
    sc = l04.Scene(ctx, rng, single=(i % 5 == 0))
    # distinct peaks, so that rows can be told apart
    if len(set(sc.peak.values())) < len(sc.ids):
        ctx.count("shared_peaks")
        return
    cfg, shear = config_for(rng, sc.bands, ctx)
    cfg['stamp_size'] = int(rng.choice([13, 17, 21]))
    cens = {}
    for s in sc.ids:
        x, y = sc.peak[s]
        cens[s] = (x + float(rng.uniform(-.5, .5)),
                   y + float(rng.uniform(-.5, .5)))
    det = lsim.make_exposure(rng, sc.box, sc.wcs, sc.mb.singles[0].getPsf(),
                             sc.bands[0], noise=1.0, dtype='f4')
    ctx.describe(box=repr(sc.box), bands=sc.bands, shear=shear,
                 peaks=list(sc.peak.values()), size=cfg['stamp_size'])
    res = run_measure(ctx, rng, sc.mb, det, sc.cat, sc.data, cfg, cens)
    rows = matched(ctx, res, sc.ids, cens, sc.peak)
    kinds = set()
    for s in sc.ids:
        row = res[rows[s]]
        b, ok = boundary(sc.peak[s], cfg['stamp_size'], sc.box)
        flags = 0
        if not ok:
            flags = procflags.EDGE_HIT
            ctx.count("edge_rows")
        elif any(median_weight(sc.cut(p[1], b)) is None for p in sc.orig):
            flags = procflags.ZERO_WEIGHTS
            ctx.count("zero_weight_rows")
        kinds.add(flags)
        check_row(ctx, row, det, sc.box, sc.wcs, cfg, cens[s], sc.peak[s],
                  flags, bmask_at(det, sc.box, sc.peak[s]))
        if flags:
            failed_row(ctx, row, shear)
        else:
            # everything but the source itself is subtracted
            obs = [ref_obs(e, sc.wcs, sc.box, b, cens[s], cens[s],
                           image=sc.base[j] + sc.model[s][j])
                   for j, e in enumerate(sc.mb.singles)]
            compare_fits(ctx, row, obs, cfg, shear, rng, False)
        ctx.count("model_rows")
    ctx.nontrivial("model", len(sc.bands), len(shear), len(sc.ids),
                   sorted(kinds))


def fam_detect(ctx, rng, i):
    """whole detection, deblending and measurement on planted stars"""
    from metadetect.lsst import measure
    import lsst.meas.algorithms as alg
    lsim.new_planes(rng)
    box = lsim.random_box(rng, 90, 130)
    wcs, scale = lsim.make_wcs(rng, lsim.box_center(box), scale=0.2)
    bands = lsim.bands_of(rng, 1, 3)
    if 'i' not in bands:
        bands[0] = 'i'
    scarlet = i % 2 == 0
    noise = float(lsim.unit(rng)*10**rng.uniform(-2, 1))
    pos = place(rng, box, int(rng.randint(3, 7)), gap=18)
    pos = [(x + rng.uniform(-.4, .4), y + rng.uniform(-.4, .4))
           for x, y in pos]
    dims = (box.getHeight(), box.getWidth())
    y, x = np.mgrid[:dims[0], :dims[1]]
    psf = lsim.make_psf(rng, scale, dim=25, fwhm=0.8, varying=False)
    img = [np.zeros(dims) for _ in bands]
    for k, (a, b) in enumerate(pos):
        s = 0.8/2.355/scale
        amp = np.full(len(bands), 60.0)
        if k == 0 and len(bands) > 1:
            # seen in a single band
            amp[:] = 0
            amp[rng.randint(len(bands))] = 60.0*len(bands)
            ctx.count("dropouts")
        for j in range(len(bands)):
            img[j] += amp[j]*noise*np.exp(-0.5*(
                (x + box.getBeginX() - a)**2
                + (y + box.getBeginY() - b)**2)/s**2)
    exps = [lsim.make_exposure(rng, box, wcs, psf, bd, noise=noise,
                               image=img[j], dtype='f4', masked=False)
            for j, bd in enumerate(bands)]
    from lsst.afw.image import Mask
    # a bit which detection leaves out, over one of the stars
    bad = str(rng.choice(["EDGE", "NO_DATA"]))
    masked = None
    if rng.uniform() < 0.5:
        masked = int(rng.randint(len(pos)))
        a, b = pos[masked]
        r0, c0 = int(b) - box.getBeginY(), int(a) - box.getBeginX()
        for e in exps:
            e.mask.array[max(0, r0-8):r0+9, max(0, c0-8):c0+9] |= \
                Mask.getPlaneBitMask(bad)
    none = i % 8 == 7
    if none:
        for e in exps:
            e.variance.array[:, :] = float(rng.choice([0.0, np.nan]))
            e.image.array[:, :] = np.nan
    mb = lsim.multi(exps)
    thresh = float(rng.choice([5.0, 8.0, 12.5]))
    user = {} if rng.uniform() < 0.5 else {
        "detect": {"nSigmaToGrow": 2.0}}
    before = snapshot(user)
    ctx.describe(box=repr(box), bands=bands, pos=pos, scarlet=scarlet,
                 thresh=thresh, masked=masked, none=none)
    task = measure.get_detect_and_deblend_task(
        rng=rng, thresh=thresh, deblender="scarlet" if scarlet else "sdss",
        config=user)
    ctx.check(snapshot(user) == before, "config-modified/detect")
    alg.EVENTS.clear()
    st = lsim.mbstate(mb)
    out = task.run(mbexp=mb)
    ctx.require(len(out) == 3, "detection-results", got=len(out))
    sources, det, model = out
    ctx.count("scarlet_runs" if scarlet else "sdss_runs")
    cfg = dict(pgauss=dict(fwhm=2.0), stamp_size=21, shear_bands=None)
    res = measure.measure(mbexp=mb, detexp=det, sources=sources,
                          model_data=model, meas_task=task.meas, config=cfg,
                          rng=rng)
    if none:
        if len(bands) > 1:
            ctx.check(len(sources) == 0 and res is None, "found-in-nothing")
            ctx.count("nothing_usable")
        return
    ev = [e for e in alg.EVENTS if e["what"] == "detection"]
    ctx.require(len(ev) == 1, "one-detection", got=len(ev))
    ctx.check(ev[0]["threshold"] == thresh, "detection-threshold",
              got=ev[0]["threshold"], want=thresh)
    ctx.check(ev[0]["config"]["nSigmaToGrow"]
              == (2.0 if user else 2.4), "detection-config")
    if len(bands) > 1:
        ctx.check(lsim.mbstate(mb) == st, "exposures-modified/detect")
    ctx.require(res is not None, "nothing-detected")
    nchild = sum(1 for s in sources if s['deblend_nChild'] == 0)
    ctx.check(res.size == nchild, "row-count/detect", got=res.size,
              want=nchild)
    # positions of the children, each exactly once
    want = sorted((s.getCentroid().y, s.getCentroid().x) for s in sources
                  if s['deblend_nChild'] == 0)
    got = sorted(zip(res['row'].astype('f8'), res['col'].astype('f8')))
    # the columns are of single precision
    ctx.close(np.array(got), np.array(want), "row-positions", rtol=2.0**-23,
              atol=1e-3)
    for k, (a, b) in enumerate(pos):
        inside = (4 <= a - box.getBeginX() < dims[1] - 4
                  and 4 <= b - box.getBeginY() < dims[0] - 4)
        if not inside:
            continue
        d = np.hypot(res['row'] - b, res['col'] - a)
        if k == masked:
            ctx.check(not np.any(d < 4), "detected-in-excluded", bit=bad)
            ctx.count("masked_stars")
            continue
        if masked is not None and np.hypot(
                a - pos[masked][0], b - pos[masked][1]) < 30:
            continue
        j = np.where(d < 2.5)[0]
        ctx.require(j.size == 1, "star-rows", star=(a, b), got=int(j.size))
        ctx.check(d[j[0]] < 0.8, "star-position", got=float(d[j[0]]))
        ctx.count("stars_found")
    ctx.nontrivial("detect", len(bands), scarlet, thresh,
                   masked is not None)


def fam_none(ctx, rng, i):
    """catalogues without anything to measure"""
    from lsst.afw import table
    (box, wcs, scale, bands, mb, det, cat, ids, peak, cens, blended,
     pkf, _) = build(ctx, rng, 1)
    cfg, shear = config_for(rng, bands, ctx)
    out = table.SourceCatalog()
    if i % 2:
        for r in cat:
            if r['deblend_nChild'] > 0:
                out.append(r)
    if len(out) == 0:
        ctx.count("empty_catalogues")
    ctx.describe(n=len(out), bands=bands)
    res = run_measure(ctx, rng, mb, det, out, None, cfg, cens)
    ctx.check(res is None, "rows-without-children")
    from metadetect.lsst import measure
    res = measure.measure(mbexp=mb, detexp=None, sources=[], model_data=None,
                          meas_task=None, config=cfg, rng=rng)
    ctx.check(res is None, "rows-without-sources")
    ctx.count("no_children")


FAMILIES = {"none": (fam_none, 8, 60), "measure": (fam_measure, 90, 2500), "model": (fam_model, 40, 1000),
            "detect": (fam_detect, 40, 800)}
