"""Small scenes for full driver runs, the event log of a run and a reference
catalogue recomputed from that log."""
import copy
import numpy as np
import ngmix
import ngmix.log
import common
import fitfake as ff
from checks import s01, d04

SCALE = 0.263
FLAT_COLS = ["sx_row", "sx_col", "sx_row_noshear", "sx_col_noshear"]
SX = dict(
    detect_thresh=2.0, deblend_cont=1e-3, deblend_nthresh=32, minarea=4,
    filter_type="conv",
    filter_kernel=[[1., 2., 1.], [2., 4., 2.], [1., 2., 1.]])


def jacobian(rng, n, kind="small", scale=None):
    # detectors differ
    if scale is None:
        scale = SCALE*(rng.uniform(0.75, 1.25) if rng.uniform() < 0.25
                       else 1.0)
    m = np.eye(2)*scale
    if kind == "small":
        m = scale*(np.eye(2) + rng.uniform(-0.03, 0.03, size=(2, 2)))
    elif kind == "rot":
        t = rng.uniform(0, 2*np.pi)
        m = scale*np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        m = m.dot(np.eye(2) + rng.uniform(-0.03, 0.03, size=(2, 2)))
    ny, nx = (n, n) if np.isscalar(n) else n
    return ngmix.Jacobian(row=(ny-1)/2, col=(nx-1)/2, dvdrow=m[0, 0], dvdcol=m[0, 1],
                          dudrow=m[1, 0], dudcol=m[1, 1])


def scene(rng, nband=None, n=None, ngal=None, jac_kind=None, masks=True,
          mfrac=None, wkind=None, close_pairs=False, noise=None, flux=None,
          same_psf=False, vary_psf_dim=False, nonsquare=None, units=None):
    nband = int(nband or rng.randint(1, 4))
    if n is None and ngal is None and rng.uniform() < 0.02:
        # a field of many sources
        n, ngal = int(rng.randint(150, 200)), int(rng.randint(25, 50))
    n = int(n or rng.randint(76, 92))
    if nonsquare is None:
        nonsquare = rng.uniform() < 0.25
    dims = (n, n)
    if nonsquare:
        # images need not be square
        dims = (n, n + int(rng.randint(7, 30)))
        if rng.uniform() < 0.5:
            dims = dims[::-1]
    ngal = int(rng.randint(2, 5) if ngal is None else ngal)
    jac = jacobian(rng, dims, jac_kind or str(rng.choice(["plain", "small",
                                                        "rot"])))
    pos = []
    tries = 0
    while len(pos) < ngal and tries < 300:
        tries += 1
        p = rng.uniform(14, np.array(dims)-15)
        if all(np.hypot(*(p-q)) > 18 for q in pos):
            pos.append(p)
    if close_pairs and pos:
        t = rng.uniform(0, 2*np.pi)
        d = rng.uniform(9, 12)
        pos.append(np.clip(pos[0] + d*np.array([np.cos(t), np.sin(t)]),
                           8, np.array(dims)-9))
    shp = [(rng.uniform(1.2, 1.9), rng.uniform(-0.2, 0.2),
            rng.uniform(-0.2, 0.2)) for _ in pos]
    base = [rng.uniform(150, 600) for _ in pos]
    if mfrac is None:
        mfrac = str(rng.choice(["none", "zero", "random", "blob", "random"]))
    mbobs = ngmix.MultiBandObsList()
    psf_e = rng.uniform(-0.03, 0.03, size=2)
    psf_s = rng.uniform(1.35, 1.6)
    psf_dim = rng.choice([25, 25, 24, 29])
    planes_mfrac = mfrac != "none"
    # the units of the pixels are anybody's choice, of every band if no
    # ratio of bands is asked for
    if units is None:
        units = 10**rng.uniform(-4, 4) if rng.uniform() < 0.35 else 1.0
    units = [float(units)]*nband
    if flux is None and rng.uniform() < 0.12:
        units = [u*10**rng.uniform(-2, 2) for u in units]
    for b in range(nband):
        if not same_psf:
            psf_e = rng.uniform(-0.03, 0.03, size=2)
            psf_s = rng.uniform(1.35, 1.6)
        im = np.zeros(dims)
        for p, (s, e1, e2), f in zip(pos, shp, base):
            fb = f*rng.uniform(0.5, 1.5) if flux is None else f*flux[b]
            # both Gaussian: moments add
            ss = s*s + psf_s**2
            ee = (np.array([e1, e2])*s*s + psf_e*psf_s**2)/ss
            im += common.gauss_image(dims, p[0], p[1], np.sqrt(ss), fb,
                                     ee[0], ee[1])
        nse = rng.uniform(0.15, 0.4) if noise is None else noise
        wk = wkind or str(rng.choice(["flat", "varying", "holes"]))
        w = np.full(dims, 1/nse**2)
        if wk == "varying":
            w *= rng.uniform(0.8, 1.2, size=w.shape)
        elif wk == "holes":
            w[rng.uniform(size=w.shape) < rng.choice([0.003, 0.01])] = 0
        elif wk == "patchy":
            # a side that was never observed, and depth that varies
            w *= np.linspace(rng.uniform(0.3, 1), rng.uniform(1, 3),
                             dims[0])[:, None]
            w[:, :int(rng.uniform(0.1, 0.65)*dims[1])] = 0
        im += rng.normal(size=im.shape)*nse
        im *= units[b]
        w /= units[b]**2
        bm = np.zeros(dims, 'i4')
        om = np.zeros(dims, 'i4')
        if masks:
            for a in (bm, om):
                k = rng.uniform(size=a.shape) < 0.01
                a[k] = 2**rng.randint(0, 20, size=k.sum())
                r0, c0 = rng.randint(0, dims)
                a[r0:r0+9, c0:c0+9] |= 2**int(rng.randint(0, 20))
        kw = {}
        if planes_mfrac:
            mf = np.zeros(dims)
            if mfrac == "random":
                mf = rng.uniform(size=dims)*rng.uniform(0.05, 0.9)
            elif mfrac == "faint":
                # everywhere, but hardly at all
                mf = rng.uniform(size=dims)*rng.uniform(1e-4, 8e-3)
            elif mfrac == "few":
                # next to nothing is masked
                for p in pos:
                    r0, c0 = np.clip(np.rint(p + rng.uniform(
                        -3, 3, size=2)).astype(int), 0, np.array(dims)-1)
                    mf[r0, c0] = rng.uniform(0.1, 0.9)
            elif mfrac == "blob":
                r0, c0 = rng.randint(0, dims)
                mf[r0:r0+25, c0:c0+25] = rng.uniform(0.3, 0.9)
            kw["mfrac"] = mf
        pd = int(psf_dim)
        if vary_psf_dim and rng.uniform() < 0.5:
            pd = int(rng.choice([23, 26, 29, 31]))
        pc = (pd - 1)/2
        pj = ngmix.Jacobian(row=pc, col=pc, dvdrow=jac.dvdrow,
                            dvdcol=jac.dvdcol, dudrow=jac.dudrow,
                            dudcol=jac.dudcol)
        pim = common.gauss_image((pd, pd), pc, pc, psf_s, 1.0, *psf_e)
        psf = ngmix.Observation(pim, weight=np.full(pim.shape, 1e12),
                                jacobian=pj)
        obs = ngmix.Observation(
            im, weight=w, bmask=bm, ormask=om, jacobian=jac, psf=psf,
            noise=rng.normal(size=im.shape)*nse*units[b], meta={"band": b}, **kw)
        ol = ngmix.ObsList()
        ol.append(obs)
        mbobs.append(ol)
    return mbobs


def meds_conf(rng=None, wt="weight"):
    c = dict(min_box_size=32, max_box_size=48, box_type="iso_radius",
             rad_min=4, rad_fac=2, box_padding=2)
    if rng is not None and rng.uniform() < 0.6:
        # stamps of many sizes, some clipping the objects
        c.update(min_box_size=int(rng.choice([12, 16, 24])),
                 max_box_size=int(rng.choice([48, 50, 64])),
                 rad_min=float(rng.choice([2, 3])),
                 rad_fac=float(rng.choice([1.2, 1.6, 2.2])))
        if rng.uniform() < 0.3:
            c = dict(box_type="sigma_size", sigma_fac=float(
                rng.choice([2, 4])), min_box_size=c["min_box_size"],
                max_box_size=c["max_box_size"])
        if c["min_box_size"] == 12 and rng.uniform() < 0.5:
            c["min_box_size"] = 17
    if wt is not None:
        c["weight_type"] = wt
    return c


def config(rng, model=None, types=None, wt=None, **kw):
    if types is None:
        types = ["noshear", str(rng.choice(["1p", "1m", "2p", "2m"]))]
    c = dict(
        metacal=dict(psf="fitgauss", types=list(types),
                     use_noise_image=True),
        sx=copy.deepcopy(SX), meds=meds_conf(rng, wt or "weight"))
    if isinstance(model, (list, tuple)):
        c["fitters"] = list(model)
    elif model is not None:
        c.update(fitter_conf(rng, model))
    c.update(kw)
    return c


def fitter_conf(rng, model, plain=False):
    c = dict(model=model)
    if model in ("wmom",):
        c["weight"] = dict(fwhm=float(rng.choice([1.0, 1.2, 1.5])))
    elif model in ("ksigma", "pgauss"):
        c["weight"] = dict(fwhm=float(rng.choice([1.8, 2.0, 2.2])))
    else:
        if rng.uniform() < 0.5:
            c["weight"] = dict(fwhm=float(rng.choice([1.2, 1.6])))
        elif rng.uniform() < 0.3:
            # all of it left to the defaults
            c["weight"] = {}
    if plain:
        return c
    if model in ("ksigma", "pgauss"):
        if rng.uniform() < 0.3:
            c["weight"]["fwhm_smooth"] = float(rng.choice([0.8, 1.0]))
    if model in ("wmom", "ksigma", "pgauss") and rng.uniform() < 0.4:
        c["weight"]["fwhm_reg"] = float(rng.choice([0.4, 0.8, 1.25]))
    if rng.uniform() < 0.5:
        c["symmetrize"] = bool(rng.uniform() < 0.5)
    if model == "gauss" and rng.uniform() < 0.5:
        c["coadd"] = bool(rng.uniform() < 0.6)
    return c


class Log:
    def __init__(self):
        self.metacal = []
        self.sep = []

    def __call__(self, kind, kw):
        if kind == "metacal":
            self.metacal.append(dict(
                obs=kw["obs"], step=kw["step"], types=list(kw["types"]),
                psf=kw["psf"],
                odict={t: planes(v) for t, v in kw["odict"].items()}))
        elif kind == "run_sep":
            self.sep.append(dict(
                image=np.array(kw["image"]), noise=kw["noise"],
                mask=None if kw["mask"] is None else np.array(kw["mask"]),
                thresh=kw["thresh"], cat=kw["cat"].copy(),
                seg=np.array(kw["seg"])))


def planes(mb):
    """a private copy of a multi-band observation"""
    out = ngmix.MultiBandObsList()
    for ol in mb:
        new = ngmix.ObsList()
        for o in ol:
            new.append(o.copy())
        out.append(new)
    return out


def run(conf, mbobs, seed=11, **kw):
    """(result, log) of one driver run through the public entry point"""
    from metadetect.metadetect import do_metadetect
    log = Log()
    ngmix.log.subscribe(log)
    try:
        res = do_metadetect(conf, mbobs, np.random.RandomState(seed), **kw)
    finally:
        ngmix.log.unsubscribe(log)
    return res, log


# ------------------------------------------------------------- reference
def ref_detim(mb, nodet):
    acc, ws = 0.0, 0.0
    mask = np.zeros(mb[0][0].image.shape, bool)
    for ol in mb:
        o = ol[0]
        w = np.median(o.weight[o.weight > 0])
        acc = acc + w*o.image
        ws += w
        mask |= (o.bmask & nodet) != 0
    return acc/ws, np.sqrt(1/ws), mask


def find_detection(log, mb, det, nodet):
    """the logged extraction made on these bands, or None"""
    sub = [mb[b] for b in det]
    im, noise, mask = ref_detim(sub, nodet)
    for e in log.sep:
        if (e["image"].shape == im.shape
                and np.allclose(e["image"], im, rtol=1e-8, atol=1e-10)
                and np.allclose(e["noise"], noise, rtol=1e-8)):
            m = e["mask"]
            m = np.zeros(im.shape, bool) if m is None else m != 0
            if np.array_equal(m, mask):
                return e
    return None



def allowed_sizes():
    out = []
    k = 1
    while 2**k <= 4096:
        out += [2**k, 3*2**(k-1)]
        k += 1
    return sorted(set(out))


def ref_box(iso_radius, mc):
    need = int(2*mc["rad_fac"]*max(float(iso_radius), mc["rad_min"])
               + mc["box_padding"])
    need = min(max(need, mc["min_box_size"]), mc["max_box_size"])
    for s in allowed_sizes():
        if need <= s and mc["min_box_size"] <= s <= mc["max_box_size"]:
            return s
    return mc["max_box_size"]


def _uberseg(wt, seg, num):
    if not np.any((seg != 0) & (seg != num)):
        return wt
    from scipy.spatial import cKDTree
    pts = np.argwhere(seg != 0)
    allp = np.argwhere(np.ones(seg.shape, bool))
    _, ind = cKDTree(pts).query(allp)
    near = seg[pts[ind, 0], pts[ind, 1]].reshape(seg.shape)
    return np.where(near == num, wt, 0.0)


def cut(obs, x, y, bs, seg, num, wt_type):
    """the stamp of one object in one band"""
    n = obs.image.shape
    y = float(np.float32(y))
    x = float(np.float32(x))
    sr = max(int(y) - bs//2 + 1, 0)
    sc = max(int(x) - bs//2 + 1, 0)

    def get(im, pad):
        out = np.full((bs, bs), pad, dtype=im.dtype)
        sub = im[sr:min(sr+bs, n[0]), sc:min(sc+bs, n[1])]
        out[:sub.shape[0], :sub.shape[1]] = sub
        return out
    w = get(obs.weight, 0.0)
    if wt_type == "uberseg":
        w = _uberseg(w, get(np.asarray(seg), 0), num)
    j = obs.jacobian
    jac = ngmix.Jacobian(row=y-sr, col=x-sc, dvdrow=j.dvdrow,
                         dvdcol=j.dvdcol, dudrow=j.dudrow, dudcol=j.dudcol)
    pim = np.array(obs.psf.image)
    pc = (np.array(pim.shape)-1)/2
    pj = ngmix.Jacobian(row=pc[0], col=pc[1], dvdrow=j.dvdrow,
                        dvdcol=j.dvdcol, dudrow=j.dudrow, dudcol=j.dudcol)
    pn = pim.max()/1000
    psf = ngmix.Observation(pim, weight=np.full(pim.shape, 1/pn**2),
                            jacobian=pj)
    return ngmix.Observation(
        get(obs.image, 0.0), weight=w, bmask=get(obs.bmask, 2**30),
        noise=get(obs.noise, 0.0), jacobian=jac, psf=psf)


def make_fitter(cfg):
    w = cfg.get("weight", {})
    kw = {"fwhm_smooth": w["fwhm_smooth"]} if "fwhm_smooth" in w else {}
    m = cfg["model"]
    if m == "wmom":
        return ngmix.gaussmom.GaussMom(fwhm=w["fwhm"])
    if m == "ksigma":
        return ngmix.prepsfmom.KSigmaMom(fwhm=w["fwhm"], **kw)
    if m == "pgauss":
        return ngmix.prepsfmom.PGaussMom(fwhm=w["fwhm"], **kw)
    return None


def prefix(cfg):
    m = cfg["model"]
    if m in ("am", "admom"):
        return "am"
    w = cfg.get("weight", {})
    if m in ("wmom", "ksigma", "pgauss") and "fwhm_reg" in w:
        return "%s_reg%0.2f" % (m, w["fwhm_reg"])
    return m


def sym_obs(o):
    o = o.copy()
    w = ff.sym_weight(o.weight)
    if not np.any(w > 0):
        return None
    with o.writeable():
        o.weight[:, :] = w
    return o


def ref_wavg(cfg, stamps, shear_bands, bmask_flags=0):
    """None when something is flagged, else (combined values, fluxes)"""
    fit = make_fitter(cfg)
    sym = cfg.get("symmetrize", True)
    objs, psfs, wg = {}, {}, {}
    for b, o in enumerate(stamps):
        if sym:
            o = sym_obs(o)
            if o is None:
                return None
        if not np.any(o.weight > 0) or np.any(o.bmask & bmask_flags):
            return None
        kw = {"no_psf": True} if cfg["model"] in ("ksigma", "pgauss") else {}
        objs[b] = fit.go(o)
        psfs[b] = fit.go(o.psf, **kw)
        wg[b] = np.median(o.weight[o.weight > 0])
        # a band whose own size or flux is not positive still has moments,
        # and it is the combined moments that decide
        if psfs[b]["flags"] or objs[b]["flux_flags"] or (
                objs[b]["flags"] & ~(2**2 | 2**3)):
            return None
    with np.errstate(all="ignore"):
        out = ff.ref_combine(
            [objs[b] for b in shear_bands], [psfs[b] for b in shear_bands],
            [wg[b] for b in shear_bands],
            cfg.get("weight", {}).get("fwhm_reg", 0))
    out["band_flux"] = np.array([objs[b]["flux"] for b in sorted(objs)])
    out["band_flux_err"] = np.array(
        [objs[b]["flux_err"] for b in sorted(objs)])
    return out


def ref_coadd_obs(stamps, sb):
    if len(sb) == 1:
        return stamps[sb[0]]
    obs = [stamps[b] for b in sb]
    w = np.array([np.median(o.weight[o.weight > 0]) for o in obs])
    w /= w.sum()
    with np.errstate(all="ignore"):
        wt = 1/sum(a*a/o.weight for a, o in zip(w, obs))
    wt[~np.isfinite(wt)] = 0
    im = sum(a*o.image for a, o in zip(w, obs))
    pim = sum(a*o.psf.image for a, o in zip(w, obs))
    psf = ngmix.Observation(pim, weight=np.full(pim.shape, 1e12),
                            jacobian=obs[0].psf.jacobian)
    return ngmix.Observation(im, weight=wt, jacobian=obs[0].jacobian,
                             psf=psf)


def ref_am(cfg, stamps, shear_bands, bmask_flags=0, seed=77):
    from metadetect.fitting import get_admom_runner
    for o in stamps:
        if not np.any(o.weight > 0) or np.any(o.bmask & bmask_flags):
            return None
    obs = ref_coadd_obs(stamps, shear_bands)
    if cfg.get("symmetrize", True):
        obs = sym_obs(obs)
        if obs is None:
            return None
    run = get_admom_runner(np.random.RandomState(seed))
    try:
        ro, rp = run.go(obs), run.go(obs.psf)
    except Exception:
        return None
    if ro["flags"] or rp["flags"]:
        return None
    return dict(T=ro["T"], T_err=ro["T_err"], g=ro["e"], s2n=ro["s2n"],
                psf_T=rp["T"], psf_g=rp["e"], T_ratio=ro["T"]/rp["T"])


def ref_region(mask, rows, cols, region):
    """or of the mask within the region about the rounded, clipped position"""
    out = np.zeros(len(rows), dtype='i8')
    ny, nx = mask.shape
    for i, (r, c) in enumerate(zip(rows, cols)):
        r = int(min(max(np.rint(r), 0), ny-1))
        c = int(min(max(np.rint(c), 0), nx-1))
        d = int(region) if region > 1 else 0
        sub = mask[max(r-d, 0):r+d+1, max(c-d, 0):c+d+1]
        out[i] = np.bitwise_or.reduce(sub, axis=None)
    return out


def ref_mfrac_image(mbobs, sb):
    acc, ws = 0.0, 0.0
    for b in sb:
        o = mbobs[b][0]
        w = np.median(o.weight[o.weight > 0]) if np.any(o.weight > 0) else 0.0
        if o.has_mfrac():
            acc = acc + w*o.mfrac
        ws += w
    if ws <= 0:
        return np.ones(mbobs[0][0].image.shape)
    return np.zeros(mbobs[0][0].image.shape) + acc/ws


def unshear(rows, cols, t, jac, dims, step):
    if t in s01.TYPES:
        jm = np.array([[jac.dvdrow, jac.dvdcol], [jac.dudrow, jac.dudcol]])
        return s01.ref(rows, cols, t, jm, None, dims, step, True)
    return np.asarray(rows, 'f8'), np.asarray(cols, 'f8')


ref_mfrac_at = d04.ref


def det_rows(log, odict, det, nodet, conf):
    """(extraction event, box sizes or None where rounding decides)"""
    from checks.d02 import needed, final
    e = find_detection(log, odict, det, nodet)
    if e is None:
        return None, None
    cat = e["cat"]
    if cat.size == 0:
        return e, np.zeros(0, 'i8')
    lo, hi = needed(cat, conf["meds"])
    a, b = final(lo, conf["meds"]), final(hi, conf["meds"])
    return e, np.where(a == b, a, -1)


def norm_combs(nband, shear, det):
    sh = shear if shear is not None else [list(range(nband))]
    if det is None:
        de = [list(range(nband))]*len(sh)
    elif isinstance(det, str):
        de = sh
    else:
        de = det
    return sh, de


def rand_combs(rng, nband):
    """(shear_band_combs, det_band_combs) as a caller would pass them"""
    def sub():
        k = int(rng.randint(1, nband+1))
        return [int(b) for b in rng.permutation(nband)[:k]]
    if rng.uniform() < 0.35:
        shear = None
        m = 1
    else:
        m = int(rng.randint(1, 4))
        shear = [sub() for _ in range(m)]
        if nband > 2 and rng.uniform() < 0.25:
            # all bands but one
            drop = int(rng.choice([0, nband-1, nband-1]))
            shear[0] = [b for b in range(nband)
                        if b != drop]
    u = rng.uniform()
    if u < 0.4:
        det = None
    elif u < 0.65:
        det = "shear_bands"
    else:
        det = [sub() for _ in range(m)]
    return shear, det


# --------------------------------------------------------- scripted PSF fits
def psf_values(psf_obs):
    """the scripted fit of a PSF: a pure function of its pixels"""
    import hashlib
    h = hashlib.sha256(np.ascontiguousarray(psf_obs.image).tobytes()).digest()
    r = np.random.RandomState(np.frombuffer(h[:32], dtype='u4'))
    return r.uniform(-0.3, 0.3, size=2), r.uniform(0.3, 2.0)


def scripted_psf_fit(fail=(), use_g=False):
    """fn for faults['psf_fit']; PSFs in fail (by identity of pixels) fail"""
    bad = [np.array(o.image) for o in fail]

    def fn(o, res):
        e, T = psf_values(o)
        if any(np.array_equal(o.image, b) for b in bad):
            return dict(flags=2**3)
        return dict(flags=0, T=T, **{"g" if use_g else "e": e})
    return fn


def ref_psfrec(mbobs, sb):
    g, T, ws = np.zeros(2), 0.0, 0.0
    for b in sb:
        o = mbobs[b][0]
        w = o.weight.max()
        e, t = psf_values(o.psf)
        g = g + w*e
        T += w*t
        ws += w
    return g/ws, T/ws


class fault:
    """with fault(name=fn): ..."""
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        ngmix.log.faults.update(self.kw)

    def __exit__(self, *a):
        for k in self.kw:
            ngmix.log.faults.pop(k, None)
