import copy
import galsim
import numpy as np
import ngmix
import gsim

PROPERTY = "G07"
RULE = ("full five-type driver runs: (a) nearly noise-free isolated galaxies "
        "in shape sets that average to zero, sheared by a known shear, all "
        "models x PSFs x target PSFs x profiles; (b) a scene against its "
        "rotation by 90, 180, 270 degrees and its transpose; (c) a scene "
        "against the same scene with scaled fluxes; (d) a scene against the "
        "same with its bands reordered; each matched row or recovered shear "
        "is one event; distinct by (model, psf, target, shear bin, "
        "transform)")
REQUIRED = ["shear_recovered", "rotated_rows", "transposed_rows",
            "scaled_rows", "permuted_rows", "wmom", "ksigma", "pgauss", "am",
            "gauss", "multi_band"]
ASSUMPTIONS = [
    "metacalibration and fitters are the ngmix stand-ins (galsim underneath)",
    "the recovered shear is required to 3 percent plus 5e-4: the response is "
    "linear in the shear only to second order",
]
CASE_LIMIT = 250
TYPES = ["noshear", "1p", "1m", "2p", "2m"]


def shear_scene(rng, g, n, nband, prof, psfk, round_psf, noise=1e-3):
    jac = gsim.jacobian(rng, n, "plain", scale=gsim.SCALE)
    h = n/4.0
    pos = [(r+rng.uniform(-.5, .5), c+rng.uniform(-.5, .5))
           for r in (h, 3*h) for c in (h, 3*h)]
    t = rng.uniform(0, np.pi)
    e = rng.uniform(0.05, 0.25)
    es = [(e*np.cos(2*(t+k*np.pi/4)), e*np.sin(2*(t+k*np.pi/4)))
          for k in range(4)]
    hlr = rng.uniform(0.4, 0.6)
    f0 = rng.uniform(100, 400)
    mb = ngmix.MultiBandObsList()
    for b in range(nband):
        fw = rng.uniform(0.75, 0.9)
        if psfk == "moffat":
            psf = galsim.Moffat(fwhm=fw, beta=3.5)
        else:
            psf = galsim.Gaussian(fwhm=fw)
        if not round_psf:
            psf = psf.shear(g1=rng.uniform(-.03, .03),
                            g2=rng.uniform(-.03, .03))
        fb = f0*rng.uniform(0.6, 1.5)
        im = galsim.ImageD(n, n, scale=gsim.SCALE)
        for (r, c), (e1, e2) in zip(pos, es):
            if prof == "exp":
                gal = galsim.Exponential(half_light_radius=hlr, flux=fb)
            else:
                gal = galsim.Gaussian(half_light_radius=hlr, flux=fb)
            gal = gal.shear(g1=e1, g2=e2).shear(g1=g[0], g2=g[1])
            off = galsim.PositionD(c-(n-1)/2, r-(n-1)/2)
            im += galsim.Convolve(gal, psf).drawImage(
                nx=n, ny=n, scale=gsim.SCALE, offset=off)
        pim = psf.drawImage(nx=33, ny=33, scale=gsim.SCALE).array
        pj = ngmix.Jacobian(row=16, col=16, dvdrow=gsim.SCALE, dvdcol=0,
                            dudrow=0, dudcol=gsim.SCALE)
        po = ngmix.Observation(pim.astype('f8'), jacobian=pj,
                               weight=np.full(pim.shape, 1e12))
        o = ngmix.Observation(
            im.array.astype('f8') + rng.normal(size=(n, n))*noise,
            weight=np.full((n, n), 1/noise**2),
            bmask=np.zeros((n, n), 'i4'), ormask=np.zeros((n, n), 'i4'),
            jacobian=jac, psf=po, noise=rng.normal(size=(n, n))*noise)
        ol = ngmix.ObsList()
        ol.append(o)
        mb.append(ol)
    return mb


def fam_shear(ctx, rng, i):
    model = ["wmom", "ksigma", "pgauss", "am", "gauss"][i % 5]
    a = rng.uniform(0.01, 0.04)
    t = rng.uniform(0, 2*np.pi)
    g = (a*np.cos(t), a*np.sin(t))
    nband = int(rng.choice([1, 2]))
    prof = str(rng.choice(["gauss", "exp"]))
    psfk = str(rng.choice(["gauss", "moffat"]))
    target = str(rng.choice(["fitgauss", "gauss", "dilate"]))
    if model == "gauss":
        # the least-squares stand-in stops on exact Gaussian PSFs
        psfk, target = "moffat", "dilate"
    # a dilated target keeps the shape of the PSF, which then has to be round
    mb = shear_scene(rng, g, 128, nband, prof, psfk, target == "dilate")
    conf = gsim.config(rng, None, types=TYPES,
                       wt=str(rng.choice(["weight", "uberseg"])))
    conf.update(gsim.fitter_conf(rng, model, plain=True))
    conf["metacal"]["psf"] = target
    step = float(rng.choice([0.01, 0.02]))
    conf["metacal"]["step"] = step
    ctx.describe(g=g, model=model, psf=psfk, target=target, prof=prof,
                 conf=conf, nband=nband)
    res, _ = gsim.run(copy.deepcopy(conf), mb)
    ctx.require(res is not None, "no-result")
    m = {}
    for t in TYPES:
        r = res[t]
        ctx.require(r is not None and r.size == 4, "galaxies-not-detected",
                    t=t, n=None if r is None else r.size)
        if np.any(r[model + "_flags"] != 0):
            ctx.check(model == "gauss", "clean-galaxy-flagged", t=t,
                      flags=r[model + "_flags"])
            ctx.count("gauss_not_converged")
            return
        m[t] = r[model + "_g"].mean(axis=0)
    R1 = (m["1p"][0] - m["1m"][0])/(2*step)
    R2 = (m["2p"][1] - m["2m"][1])/(2*step)
    ctx.check(R1 > 0.1 and R2 > 0.1, "response-not-positive", R=(R1, R2))
    got = m["noshear"]/np.array([R1, R2])
    ctx.check(np.all(np.abs(got-g) < 5e-4 + 0.03*a), "shear-not-recovered",
              got=got, want=g, R=(R1, R2))
    ctx.count("shear_recovered")
    ctx.count(model)
    if nband > 1:
        ctx.count("multi_band")
    ctx.nontrivial("shear", model, psfk, target, prof, int(a*200))
    ctx.sample(ctx.info)


def remap(mb, fn):
    """new observations with every plane mapped by fn"""
    out = ngmix.MultiBandObsList()
    for ol in mb:
        new = ngmix.ObsList()
        for o in ol:
            kw = {}
            if o.has_mfrac():
                kw["mfrac"] = fn(o.mfrac).copy()
            p = o.psf
            # the PSF stamps are centred
            psf = ngmix.Observation(fn(p.image).copy(), jacobian=p.jacobian,
                                    weight=fn(p.weight).copy())
            new.append(ngmix.Observation(
                fn(o.image).copy(), weight=fn(o.weight).copy(),
                bmask=fn(o.bmask).copy(), ormask=fn(o.ormask).copy(),
                noise=fn(o.noise).copy(), jacobian=o.jacobian, psf=psf,
                **kw))
        out.append(new)
    return out


def match(ctx, a, b, rows, cols, tol, mech, /, **w):
    """rows of a in the order of b; None if they do not pair up"""
    if a is None or b is None:
        ctx.check((a is None) == (b is None), mech + "/empty", **w)
        return None
    if a.size != b.size:
        # deblending and thresholds are not symmetric operations
        ctx.count("unmatched_tables")
        return None
    d = np.hypot(rows[:, None]-b["sx_row"][None, :],
                 cols[:, None]-b["sx_col"][None, :])
    ind = np.argmin(d, axis=0)
    if len(set(ind)) < b.size or np.any(d[ind, np.arange(b.size)] > tol):
        ctx.count("unmatched_tables")
        return None
    return ind


MODELS = ["wmom", "ksigma", "pgauss", "am"]


def fam_rotate(ctx, rng, i):
    """90 degree rotations and transposition of the scene"""
    model = MODELS[i % 4]
    nband = int(rng.choice([1, 2]))
    # isolated bright sources: stamps are not symmetric about their centre
    mb = shear_scene(rng, rng.uniform(-0.1, 0.1, size=2), 128, nband, "gauss",
                     str(rng.choice(["gauss", "moffat"])), False, noise=0.01)
    kind = ["rot1", "rot2", "rot3", "transpose"][(i//4) % 4]
    fn = {"rot1": lambda a: np.rot90(a, 1), "rot2": lambda a: np.rot90(a, 2),
          "rot3": lambda a: np.rot90(a, 3), "transpose": lambda a: a.T}[kind]
    conf = gsim.config(rng, None, types=TYPES, wt="weight")
    conf.update(gsim.fitter_conf(rng, model, plain=True))
    conf["metacal"]["psf"] = "dilate"
    conf["sx"]["detect_thresh"] = 20.0
    conf["meds"].update(min_box_size=48, max_box_size=48)
    ctx.describe(kind=kind, model=model, conf=conf, nband=nband)
    new = remap(mb, fn)
    A, _ = gsim.run(copy.deepcopy(conf), mb)
    B, _ = gsim.run(copy.deepcopy(conf), new)
    ctx.require(A is not None and B is not None, "no-result")
    n = mb[0][0].image.shape[0]
    # where a position goes, what happens to g, and to the type
    sg = {"rot1": (-1, -1), "rot2": (1, 1), "rot3": (-1, -1),
          "transpose": (-1, 1)}[kind]
    pos = {"rot1": lambda r, c: (n-1-c, r), "rot2": lambda r, c: (
        n-1-r, n-1-c), "rot3": lambda r, c: (c, n-1-r),
        "transpose": lambda r, c: (c, r)}[kind]
    swap = {"p": "m", "m": "p"}
    for t in TYPES:
        u = t
        if t != "noshear" and sg[int(t[0])-1] < 0:
            u = t[0] + swap[t[1]]
        a, b = A[t], B[u]
        if a is None:
            continue
        r, c = pos(a["sx_row"].astype('f8'), a["sx_col"].astype('f8'))
        ind = match(ctx, a, b, r, c, 0.05, "rotated", t=t, kind=kind)
        if ind is None:
            continue
        a = a[ind]
        ok = (a[model + "_flags"] == 0) & (b[model + "_flags"] == 0)
        ctx.check(np.all(ok), "rotated-flags", t=t, kind=kind, model=model)
        if not np.any(ok):
            continue
        a, b = a[ok], b[ok]
        w = dict(t=t, kind=kind, model=model)
        ctx.close(b[model + "_g"], a[model + "_g"]*np.array(sg),
                  "rotated-shape", rtol=0, atol=GTOL[model], **w)
        ctx.close(b[model + "_T"], a[model + "_T"], "rotated-size",
                  rtol=TTOL[model], atol=1e-3, **w)
        ctx.close(b["psfrec_g"], a["psfrec_g"]*np.array(sg), "rotated-psf",
                  rtol=0, atol=2e-3, **w)
        for s in ("row", "col"):
            rr, cc = pos(a["sx_row_noshear"].astype('f8'),
                         a["sx_col_noshear"].astype('f8'))
            ctx.close(b["sx_%s_noshear" % s], rr if s == "row" else cc,
                      "rotated-position", rtol=0, atol=0.05, **w)
        ctx.count("rotated_rows" if kind != "transpose"
                  else "transposed_rows", b.size)
    ctx.count(model)
    ctx.nontrivial(kind, model, nband)


GTOL = dict(wmom=2e-3, ksigma=4e-3, pgauss=4e-3, am=4e-3)
TTOL = dict(wmom=5e-3, ksigma=1e-2, pgauss=1e-2, am=1e-2)


def fam_scale(ctx, rng, i):
    model = MODELS[i % 4]
    nband = int(rng.randint(1, 4))
    mb = gsim.scene(rng, nband=nband, close_pairs=rng.uniform() < 0.4)
    a = 2.0**int(rng.choice([-4, -2, 1, 3, 6]))
    conf = gsim.config(rng, None, types=["noshear", str(rng.choice(
        TYPES[1:]))], wt=str(rng.choice(["weight", "uberseg"])))
    conf.update(gsim.fitter_conf(rng, model))
    ctx.describe(model=model, a=a, conf=conf, nband=nband)
    new = gsim.planes(mb)
    for ol in new:
        o = ol[0]
        o.set_image(o.image*a)
        o.set_noise(o.noise*a)
        o.set_weight(o.weight/a**2)
    A, _ = gsim.run(copy.deepcopy(conf), mb)
    B, _ = gsim.run(copy.deepcopy(conf), new)
    ctx.require((A is None) == (B is None), "scaled-none")
    if A is None:
        return
    pre = gsim.prefix(conf)
    for t in conf["metacal"]["types"]:
        x, y = A[t], B[t]
        w = dict(t=t, a=a, model=model)
        ind = match(ctx, x, y, x["sx_row"], x["sx_col"], 1e-3, "scaled",
                    **w) if x is not None and y is not None else None
        if ind is None:
            continue
        x = x[ind]
        ctx.equal(x[pre + "_flags"] == 0, y[pre + "_flags"] == 0,
                  "scaled-flags", **w)
        ok = (x[pre + "_flags"] == 0) & (y[pre + "_flags"] == 0)
        x, y = x[ok], y[ok]
        rt = 1e-6 if model != "am" else 5e-3
        for c in ("g", "T", "s2n", "psf_g", "psf_T", "T_ratio", "g_cov",
                  "T_err"):
            if pre + "_" + c in x.dtype.names:
                ctx.close(y[pre + "_" + c], x[pre + "_" + c],
                          "scaled-values/" + c, rtol=rt,
                          atol=1e-8 if model != "am" else 3e-3, **w)
        if pre + "_band_flux" in x.dtype.names and model != "am":
            for c in ("band_flux", "band_flux_err"):
                ctx.close(y[pre + "_" + c], a*x[pre + "_" + c],
                          "scaled-flux", rtol=1e-6, atol=1e-7*a, **w)
        for c in ("ormask", "bmask", "mfrac", "mfrac_img"):
            ctx.close(x[c], y[c], "scaled-masks", rtol=1e-5, atol=1e-6, **w)
        ctx.count("scaled_rows", x.size)
    ctx.count(model)
    ctx.nontrivial("scale", model, nband, a)


def fam_permute(ctx, rng, i):
    """the order of the bands names columns and nothing else"""
    model = MODELS[i % 3]
    nband = int(rng.randint(2, 5))
    mb = gsim.scene(rng, nband=nband, close_pairs=rng.uniform() < 0.4)
    conf = gsim.config(rng, None, types=["noshear", str(rng.choice(
        TYPES[1:]))], wt=str(rng.choice(["weight", "uberseg"])))
    conf.update(gsim.fitter_conf(rng, model))
    conf["metacal"]["psf"] = "gauss"
    p = [int(v) for v in rng.permutation(nband)]
    new = ngmix.MultiBandObsList()
    src = gsim.planes(mb)
    for k in p:
        new.append(src[k])
    # band k of the original is band p.index(k) of the new
    sh = [[int(b) for b in rng.permutation(nband)[:int(rng.randint(
        1, nband+1))]]]
    ctx.describe(model=model, p=p, conf=conf, nband=nband, sh=sh)
    fl = gsim.fault(psf_fit=gsim.scripted_psf_fit())
    with fl:
        A, _ = gsim.run(copy.deepcopy(conf), mb, shear_band_combs=sh)
        B, _ = gsim.run(copy.deepcopy(conf), new, shear_band_combs=[
            [p.index(k) for k in s] for s in sh])
    ctx.require((A is None) == (B is None), "permuted-none")
    if A is None:
        return
    pre = gsim.prefix(conf)
    for t in conf["metacal"]["types"]:
        w = dict(t=t, p=p, model=model)
        x, y = A[t], B[t]
        ind = match(ctx, x, y, x["sx_row"], x["sx_col"], 1e-3, "permuted",
                    **w) if x is not None and y is not None else None
        if ind is None:
            continue
        x = x[ind]
        for c in x.dtype.names:
            if c in ("shear_bands", "det_bands"):
                continue
            want = x[c]
            if c.endswith(("band_flux", "band_flux_err", "band_flux_flags")):
                want = want[:, p]
            if want.dtype.kind == "f":
                f4 = want.dtype == np.float32
                ctx.close(y[c], want, "permuted-values/" + c.replace(
                    pre + "_", ""), rtol=1e-4 if f4 else 1e-6,
                    atol=2e-4 if f4 else 1e-8, **w)
            else:
                ctx.equal(y[c], want, "permuted-values/" + c.replace(
                    pre + "_", ""), **w)
        ctx.count("permuted_rows", x.size)
    ctx.count("multi_band")
    ctx.nontrivial("permute", model, nband, str(p), str(sh))


FAMILIES = {"shear": (fam_shear, 50, 600), "rotate": (fam_rotate, 32, 400),
            "scale": (fam_scale, 60, 1000),
            "permute": (fam_permute, 45, 800)}
