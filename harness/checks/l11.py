import numpy as np
import lsim
from mon import snapshot
from checks import l07, l09

PROPERTY = "L11"
RULE = ("whole photometry runs on 1-3 bands of planted stars (80-120 pixels "
        "a side, not square, away from the origin) over configurations of "
        "shear bands, thresholds, stamp sizes, apertures, sky subtraction "
        "and deblender, with and without masked fractions and or-masks, "
        "every run done twice and every row remeasured; and configurations "
        "alone: every subset of keys, sequences of calls, keys that do not "
        "exist; distinct by (entry point, bands, shear bands, configuration)")
REQUIRED = ["runs", "rows_checked", "rows_measured", "mfrac_rows",
            "ormask_rows", "psf_rows", "shear_subsets", "reproduced",
            "sky_runs", "scarlet_runs", "sdss_runs", "no_source_runs",
            "offset_cases", "nonsquare", "configs", "config_refused",
            "no_mfrac", "no_ormasks", "stars_found", "psf_failed_runs"]
ASSUMPTIONS = [
    "fits, detection and deblending are decided by L07; here rows are "
    "remeasured on the exposures given",
    "with sky subtraction the multi-band exposure itself is the output; "
    "a single band is its own detection image and gains DETECTED bits"]
CASE_LIMIT = 200


def make_config(ctx, rng, f):
    user = {}
    eff = dict(stamp_size=49, pgauss=dict(fwhm=2.0), thresh=5.0, sky=False,
               deblender="sdss")
    names, shear = l09.shear_choice(ctx, rng, f.bands)
    if names is not None or rng.uniform() < 0.2:
        user['shear_bands'] = names
    if rng.uniform() < 0.8:
        user['stamp_size'] = eff['stamp_size'] = int(
            rng.choice([17, 21, 24, 25]))
    if rng.uniform() < 0.5:
        user['pgauss'] = dict(fwhm=float(rng.choice([1.2, 1.6, 2.5])))
        eff['pgauss'] = dict(user['pgauss'])
    if rng.uniform() < 0.6:
        eff['thresh'] = float(rng.choice([4.0, 7.5, 10.0]))
        user['detect'] = {'thresh': eff['thresh']}
    if rng.uniform() < 0.25:
        user['subtract_sky'] = eff['sky'] = True
    if 'i' in f.bands and rng.uniform() < 0.4:
        user['deblender'] = eff['deblender'] = "scarlet"
    elif rng.uniform() < 0.2:
        user['deblender'] = "sdss"
    return user, eff, shear


def fam_run(ctx, rng, i):
    from metadetect.lsst import photometry as ph
    from lsst.afw.image import Mask
    import lsst.meas.algorithms as alg
    import ngmix.log as nlog
    empty = i % 12 == 11
    sky = float(rng.choice([0, 30])) if i % 3 == 0 else 0.0
    f = l09.Field(ctx, rng, empty=empty, sky=sky)
    user, eff, shear = make_config(ctx, rng, f)
    if sky:
        user['subtract_sky'] = eff['sky'] = True
    if empty:
        user['detect'] = {'thresh': 1000.0}
        eff['thresh'] = 1000.0
    if not user and rng.uniform() < 0.5:
        user = None
    fail = i % 9 == 4
    kw = {}
    if f.mfrac is not None or rng.uniform() < 0.5:
        kw['mfrac_mbexp'] = f.mfrac
    if f.ormasks is not None or rng.uniform() < 0.5:
        kw['ormasks'] = f.ormasks
    if user is not None or rng.uniform() < 0.5:
        kw['config'] = user
    ctx.describe(box=repr(f.box), bands=f.bands, config=user, shear=shear,
                 pos=f.pos, mfrac=f.mfrac is not None, fail=fail,
                 ormasks=f.ormasks is not None)
    seed = int(rng.randint(2**31))
    copies = f.clone()
    meds = []

    def run(mb, extra):
        alg.EVENTS.clear()
        del meds[:]
        n = [0]
        bad = int(seed % len(f.bands))

        def breakpsf(o, res):
            n[0] += 1
            if n[0] == bad + 1:
                res['flags'] = 2**9
            return res
        alg.FAULTS["detection"] = lambda e: meds.append(
            float(np.median(e.image.array)))
        if fail:
            nlog.faults['psf_fit'] = breakpsf
        try:
            return ph.run_photometry(
                mbexp=mb, rng=np.random.RandomState(seed), **extra)
        finally:
            alg.FAULTS.pop("detection", None)
            nlog.faults.pop('psf_fit', None)
    st, ucopy = f.states(), snapshot(user)
    before = [lsim.planes(e) for e in f.mb.singles]
    np.random.seed(int(rng.randint(2**31)))
    res = run(f.mb, kw)
    ev = list(alg.EVENTS)
    ctx.check(snapshot(user) == ucopy, "config-modified")
    now = f.states()
    ctx.check(now[2:] == st[2:], "inputs-modified")
    det = Mask.getPlaneBitMask("DETECTED") | Mask.getPlaneBitMask(
        "DETECTED_NEGATIVE")
    for e, (im, var, msk) in zip(f.mb.singles, before):
        if not eff['sky']:
            ctx.equal(e.image.array, im, "exposures-modified")
        ctx.equal(e.variance.array, var, "variance-modified")
        if len(f.bands) > 1 and not eff['sky']:
            ctx.equal(e.mask.array, msk, "mask-modified")
        else:
            ctx.equal(e.mask.array & ~det, msk & ~det, "mask-modified")
    dets = [e for e in ev if e['what'] == "detection"]
    ctx.require(len(dets) >= 1 and dets[-1]['threshold'] == eff['thresh'],
                "detection-threshold", got=[e['threshold'] for e in dets],
                want=eff['thresh'])
    # the detections made for the sky estimate use the threshold as well
    ctx.check(all(e['threshold'] == eff['thresh'] for e in dets),
              "sky-detection-threshold", got=[e['threshold'] for e in dets],
              want=eff['thresh'])
    nbg = sum(e['what'] == "background" for e in ev)
    if eff['sky']:
        ctx.check(nbg >= len(f.bands), "sky-not-subtracted", got=nbg)
        ctx.check(abs(meds[-1]) < 3*max(f.noise), "sky-remains",
                  got=meds[-1], noise=f.noise)
        ctx.count("sky_runs")
    else:
        ctx.check(nbg == 0 and len(dets) == 1, "sky-subtracted-unasked",
                  got=(nbg, len(dets)))
    kinds = [e['kind'] for e in ev if e['what'] == "deblend"]
    if empty:
        ctx.check(res is None, "rows-of-nothing")
        ctx.count("no_source_runs")
    else:
        ctx.check(kinds == [eff['deblender']], "deblender", got=kinds,
                  want=eff['deblender'])
        ctx.count(eff['deblender'] + "_runs")
        ctx.require(res is not None and res.size > 0, "no-rows")
        ctx.check(np.all(res['stamp_size'] == eff['stamp_size']),
                  "stamp-size", got=int(res['stamp_size'][0]),
                  want=eff['stamp_size'])
        l09.check_columns(ctx, f, res, "photometry", shear, fail=fail)
        for p in f.pos:
            d = np.hypot(res['col'] - p[0], res['row'] - p[1])
            k = int(np.argmin(d))
            if not ctx.check(d[k] < 1.5, "star-lost", star=p,
                             got=float(d[k])):
                continue
            ctx.count("stars_found")
            row = res[k]
            c = float(row['col']), float(row['row'])
            peak = (int(round(c[0] - row['col_diff'])),
                    int(round(c[1] - row['row_diff'])))
            b, ok = l07.boundary(peak, eff['stamp_size'], f.box)
            ctx.check((row['stamp_flags'] == 0) == ok, "stamp-flags",
                      got=int(row['stamp_flags']), at=c)
            if not ok or eff['deblender'] != "sdss":
                continue
            obs = [l07.ref_obs(e, f.wcs, f.box, b, c, c)
                   for e in f.mb.singles]
            l07.compare_fits(ctx, row, obs, eff, shear, rng, False)
            ctx.count("rows_measured")
    mb2, _, mf2, or2 = copies
    kw2 = dict(kw)
    if 'mfrac_mbexp' in kw2:
        kw2['mfrac_mbexp'] = mf2
    if 'ormasks' in kw2:
        kw2['ormasks'] = or2
    np.random.seed(int(rng.randint(2**31)))
    again = run(mb2, kw2)
    l09.same_table(ctx, res, again, "rerun-differs")
    ctx.count("reproduced")
    ctx.count("psf_failed_runs", int(fail))
    ctx.count("runs")
    ctx.nontrivial("run", len(f.bands), len(shear), eff['deblender'],
                   eff['sky'], f.mfrac is None, fail, eff['stamp_size'])
    ctx.sample(ctx.info)


DEFAULTS = dict(
    subtract_sky=False, deblender="sdss", detect=dict(thresh=5.0),
    metacal=dict(reconv_type="fitgauss"), pgauss=dict(fwhm=2.0),
    stamp_size=49, shear_bands=None)


def random_config(rng):
    out = {}
    opts = dict(
        subtract_sky=bool(rng.randint(2)),
        deblender=str(rng.choice(["sdss", "scarlet"])),
        detect=dict(thresh=float(rng.uniform(1, 20))),
        metacal=[dict(), dict(types=["noshear", "2p"]),
                 dict(reconv_type="gauss", types=["1m"])][rng.randint(3)],
        pgauss=dict(fwhm=float(rng.uniform(1, 4))),
        stamp_size=int(rng.randint(5, 90)),
        shear_bands=["r", "i"])
    for k in opts:
        if rng.uniform() < 0.4:
            out[k] = opts[k]
    return out


def full(user):
    want = {k: dict(v) if isinstance(v, dict) else v
            for k, v in DEFAULTS.items()}
    for k, v in (user or {}).items():
        if isinstance(v, dict):
            want[k] = dict(DEFAULTS[k], **v)
        else:
            want[k] = v
    return want


def fam_config(ctx, rng, i):
    """histories of configurations: each is the defaults with its own
    entries, whatever was asked for or done to a result before"""
    from metadetect.lsst.configs import get_config
    hist = []
    for _ in range(int(rng.randint(3, 9))):
        op = rng.uniform()
        if op < 0.12:
            bad = random_config(rng)
            k = rng.randint(4)
            if k == 0:
                bad["nosuch"] = 3
            elif k == 1:
                bad["pgauss"] = dict(fwhm=1.0, other=2)
            elif k == 2:
                bad["detect"] = dict(threshold=2.0)
            else:
                bad["detect"] = dict(thresh=2.0, sigma=2.0)
            b = snapshot(bad)
            ctx.expect_raises(lambda: get_config(bad), ValueError,
                              "unknown-key-accepted", config=bad)
            ctx.check(snapshot(bad) == b, "config-modified/refused")
            ctx.count("config_refused")
            hist.append("bad")
            continue
        user = None if op < 0.25 else random_config(rng)
        b = snapshot(user)
        got = get_config(user) if rng.uniform() < 0.5 or user is None \
            else get_config(config=user)
        ctx.describe(config=user, history=hist)
        ctx.check(snapshot(user) == b, "config-modified/config")
        ctx.require(snapshot(got) == snapshot(full(user)), "configuration",
                    got=got, want=full(user))
        # doing something to the result is nobody else's business
        for k in ('pgauss', 'detect', 'metacal'):
            got[k]['changed'] = 1
        got['pgauss']['fwhm'] = -3
        ctx.check(snapshot(user) == b, "config-shared")
        ctx.count("configs")
        hist.append(None if user is None else sorted(user))
    ctx.nontrivial("config", tuple(sorted(str(h) for h in hist))[:2])


FAMILIES = {"run": (fam_run, 60, 1200), "config": (fam_config, 100, 2000)}
