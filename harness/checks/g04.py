import copy
import numpy as np
import ngmix
import sxdes
import gsim
from mon import StopCase
from checks import g02, g08, g03, d01

PROPERTY = "G04"
RULE = ("full driver runs with 1-4 colour-dependent renderings (different "
        "pixels, PSFs, weights, masks, masked fractions; the original object "
        "itself and the no-colour key among them), colour functions that are "
        "constant, per-object, or map to nothing, and renderings whose "
        "metacalibration fails; every row is one event, recomputed on the "
        "rendering its logged fluxes map to; distinct by (nband, keys used, "
        "models, combinations)")
REQUIRED = ["rows", "row_on_rendering", "row_on_original", "row_on_none_key",
            "distinct_keys_in_table", "uberseg_runs", "multi_comb_runs",
            "failed_rendering_skips", "equal_rendering_rows", "refused",
            "color_calls", "mask_rows_differ", "multi_fitter_runs",
            "empty_detections"]
ASSUMPTIONS = [
    "the fluxes handed to the colour function are those of the first fitter "
    "with its default weight symmetrization; with symmetrization off either "
    "convention is accepted",
]
CASE_LIMIT = 250
UNDECIDED = object()


def rendering(rng, mbobs, planes_mfrac):
    out = gsim.planes(mbobs)
    for ol in out:
        o = ol[0]
        n = o.image.shape
        a = rng.uniform(0.8, 1.25)
        o.set_image(o.image*a + rng.normal(size=n)*0.05)
        o.set_noise(o.noise*a)
        o.set_weight(o.weight/a**2*rng.uniform(0.8, 1.2))
        with o.writeable():
            for p in (o.bmask, o.ormask):
                p[:] = 0
                k = rng.uniform(size=n) < 0.3
                p[k] = 2**rng.randint(0, 29, size=k.sum()).astype('i4')
        if planes_mfrac:
            o.mfrac = rng.uniform(size=n)*rng.uniform(0.1, 0.9)
        p = o.psf.copy()
        e = rng.uniform(-0.04, 0.04, size=2)
        c = (p.image.shape[0]-1)/2
        import common
        p.set_image(common.gauss_image(p.image.shape, c, c,
                                       rng.uniform(1.3, 1.6), 1.0, *e))
        o.set_psf(p)
    return out


def gen(rng, nofail=False):
    nband = int(rng.randint(1, 4))
    mk = str(rng.choice(["none", "random", "blob"]))
    mbobs = gsim.scene(rng, nband=nband, mfrac=mk, vary_psf_dim=True,
                       close_pairs=rng.uniform() < 0.5)
    for ol in mbobs:
        with ol[0].writeable():
            for a in (ol[0].bmask, ol[0].ormask):
                k = rng.uniform(size=a.shape) < 0.2
                a[k] |= 2**rng.randint(0, 29, size=k.sum()).astype('i4')
    models = [str(m) for m in rng.permutation(["wmom", "ksigma", "pgauss"])[
        :int(rng.choice([1, 1, 1, 2]))]]
    fc = [gsim.fitter_conf(rng, m) for m in models]
    if len(fc) == 1:
        top = copy.deepcopy(fc[0])
    else:
        top = dict(fitters=copy.deepcopy(fc))
    conf = gsim.config(rng, None,
                       wt=str(rng.choice(["weight", "uberseg"])))
    conf.update(top)
    if rng.uniform() < 0.3:
        conf["bmask_flags"] = int(2**30)
    if rng.uniform() < 0.4:
        conf["mask_region"] = int(rng.choice([2, 4]))
    if rng.uniform() < 0.3:
        conf["mfrac_fwhm"] = 2.0
    conf["metacal"]["psf"] = str(rng.choice(["fitgauss", "gauss"]))
    shear, det = gsim.rand_combs(rng, nband)
    return nband, mbobs, fc, conf, shear, det, mk


def event_for(log, mb):
    for e in log.metacal:
        if np.array_equal(e["obs"][0][0].image, mb[0][0].image):
            return e
    return None


def fam_keys(ctx, rng, i):
    nband, mbobs, fc, conf, shear, det, mk = gen(rng)
    nr = int(rng.randint(1, 4))
    # any hashable is a colour key, the ones that count as false among them
    names = [
        [("c", k) for k in range(nr)],
        ["c%d" % k for k in range(nr)],
        list(range(nr)),
        [("", "a", "b")[k] for k in range(nr)],
        [((), (0,), (0, 1))[k] for k in range(nr)],
    ][int(rng.randint(5))]
    if rng.uniform() < 0.06:
        # a fine grid of colours
        names = list(range(int(rng.randint(6, 11))))
    rend = {k: rendering(rng, mbobs, mk != "none") for k in names}
    keys = list(names)
    if rng.uniform() < 0.5:
        rend["same"] = mbobs
        keys.append("same")
    if rng.uniform() < 0.6:
        keys.append(None)
    mode = str(rng.choice(["per", "per", "per", "const"]))
    calls = []

    def key_of(flux):
        v = float(np.nansum(np.abs(np.atleast_1d(flux))))
        if mode == "const":
            return keys[0]
        return keys[int(v*7919) % len(keys)]

    def func(flux):
        k = key_of(flux)
        calls.append((np.array(flux, copy=True), k))
        return k

    failing = None
    if rng.uniform() < 0.3 and len(keys) > 1:
        failing = names[0]
    ctx.describe(nband=nband, conf=conf, shear=shear, det=det, mode=mode,
                 keys=[str(k) for k in keys], failing=str(failing))
    orig = gsim.planes(mbobs)
    copies = {k: (orig if v is mbobs else gsim.planes(v))
              for k, v in rend.items()}
    copies[None] = orig
    fl = dict(psf_fit=gsim.scripted_psf_fit())
    if failing is not None:
        bad = copies[failing][0][0].image

        def boom(obs):
            if np.array_equal(obs[0][0].image, bad):
                raise ngmix.gexceptions.BootPSFFailure("injected")
        fl["metacal"] = boom
    with gsim.fault(**fl):
        res, log = gsim.run(copy.deepcopy(conf), mbobs,
                            shear_band_combs=shear, det_band_combs=det,
                            color_key_func=func, color_dep_mbobs=rend)
    ctx.require(res is not None, "no-result")
    base = event_for(log, orig)
    ctx.require(base is not None, "originals-not-metacalibrated")
    sh, de = gsim.norm_combs(nband, shear, det)
    wt = conf["meds"].get("weight_type", "weight")
    bfl = conf.get("bmask_flags", 0)
    types = conf["metacal"]["types"]
    # the detections in the order in which they must appear per type
    dets = {t: [] for t in types}
    seq = 0
    for s, d in zip(sh, de):
        for t in base["types"]:
            e, bs = gsim.det_rows(log, base["odict"][t], d, 0, conf)
            ctx.require(e is not None, "detection-not-on-originals", t=t)
            for j in range(e["cat"].size):
                dets[t].append((s, d, e, j, int(bs[j]), seq))
                seq += 1
    total = sum(len(v) for v in dets.values())
    ctx.count("color_calls", len(calls))
    f0 = dict(fc[0])
    fwhm = conf.get("mfrac_fwhm", fc[0]["weight"]["fwhm"])
    bmr, omr = g02.region_sizes(conf)
    jac = orig[0][0].jacobian
    dims = orig[0][0].image.shape
    used = set()
    decided = {}
    for t in types:
        for s, d, e, j, bs, nth in dets[t]:
            decided[nth] = UNDECIDED
            if bs >= 0:
                decided[nth] = candidates(
                    ctx, calls, mode, keys, f0, base["odict"][t], e["cat"],
                    j, bs, e, wt, s, bfl, nband, dict(t=t, shear=s, det=d))
    if len(calls) == total and all(
            v is UNDECIDED or calls[q][1] == v for q, v in decided.items()):
        # one call per detection, in order: that decides the others
        for q, v in decided.items():
            if v is UNDECIDED:
                decided[q] = calls[q][1]
                ctx.count("keys_by_order")
    for t in types:
        rows, k = res.get(t), 0
        for s, d, e, j, bs, nth in dets[t]:
            cat = e["cat"]
            w = dict(t=t, shear=s, det=d, j=j)
            key = decided[nth]
            if key is UNDECIDED:
                raise StopCase()
            if failing is not None and key == failing:
                ctx.count("failed_rendering_skips")
                continue
            ctx.require(rows is not None and k < rows.size, "row-missing",
                        k=k, total=total, **w)
            row = rows[k:k+1]
            k += 1
            ev = event_for(log, copies[key])
            ctx.require(ev is not None, "rendering-not-metacalibrated",
                        key=str(key), **w)
            ctx.equal(np.float32(row["sx_row"][0]), np.float32(cat["y"][j]),
                      "row-position", **w)
            if bs >= 0:
                stamps = [gsim.cut(ev["odict"][t][b][0], cat["x"][j],
                                   cat["y"][j], bs, e["seg"],
                                   cat["number"][j], wt)
                          for b in range(nband)]
                g08.one_row(ctx, fc, stamps, row[0], s, bfl, w)
            planes = copies[key]
            g02.check_block(ctx, row, cat[j:j+1], np.array([bs]), t, s, d,
                            planes, jac, dims, conf["metacal"].get(
                                "step", 0.01), fwhm, bmr, omr, mk)
            g, T = gsim.ref_psfrec(planes, s)
            ctx.close(row["psfrec_g"][0], g, "psfrec-of-rendering",
                      rtol=1e-9, atol=1e-12, **w)
            ctx.close(row["psfrec_T"][0], T, "psfrec-of-rendering",
                      rtol=1e-9, **w)
            used.add(str(key))
            if key is None:
                ctx.count("row_on_none_key")
            elif key == "same":
                ctx.count("row_on_original")
            else:
                ctx.count("row_on_rendering")
                om = gsim.ref_region(orig[s[0]][0].ormask, row["sx_row"],
                                     row["sx_col"], omr)
                if om[0] != row["ormask"][0]:
                    ctx.count("mask_rows_differ")
        ctx.check((0 if rows is None else rows.size) == k, "extra-rows",
                  t=t, k=k, have=0 if rows is None else rows.size)
    if len(used) > 1:
        ctx.count("distinct_keys_in_table")
    if wt == "uberseg":
        ctx.count("uberseg_runs")
    if len(fc) > 1:
        ctx.count("multi_fitter_runs")
    if shear is not None and len(shear) > 1:
        ctx.count("multi_comb_runs")
    ctx.nontrivial(nband, sorted(used), [f["model"] for f in fc], shear, det,
                   mode)
    ctx.sample(ctx.info)


def candidates(ctx, calls, mode, keys, f0, od, cat, j, bs, e, wt, s, bfl,
               nband, w):
    """the key of this detection from the logged calls; None if undecided"""
    if mode == "const":
        return keys[0]
    stamps = [gsim.cut(od[b][0], cat["x"][j], cat["y"][j], bs, e["seg"],
                       cat["number"][j], wt) for b in range(nband)]
    want = []
    syms = [True]
    if not f0.get("symmetrize", True):
        syms.append(False)
    for sy in syms:
        r = gsim.ref_wavg(dict(f0, symmetrize=sy), stamps, s, bfl)
        if r is None:
            return UNDECIDED
        want.append(r["band_flux"])
    got = set()
    for fl, k in calls:
        v = np.atleast_1d(fl)
        for x in want:
            if v.shape == x.shape and np.allclose(v, x, rtol=1e-6,
                                                  atol=1e-9):
                got.add((k,))
    ctx.require(len(got) > 0, "fluxes-not-asked", want=want[0], **w)
    if len(got) > 1:
        return UNDECIDED
    return next(iter(got))[0]


def fam_equal(ctx, rng, i):
    """renderings equal to the originals: the plain run's table"""
    nband, mbobs, fc, conf, shear, det, mk = gen(rng)
    kind = str(rng.choice(["copy", "copy", "same", "none", "mixed"]))
    conf["metacal"]["psf"] = "gauss"
    conf["nodet_flags"] = int(rng.choice([0, 2**5]))
    ctx.describe(nband=nband, conf=conf, shear=shear, det=det, kind=kind)
    rend = {"k0": gsim.planes(mbobs), "k1": gsim.planes(mbobs)}
    # in some runs nothing is found in some or all of the images
    p = float(rng.choice([0, 0, 0.5, 1.0]))
    drop = rng.uniform(size=200) < p
    dropped = []

    def scripted(image, noise, config=None, thresh=None, mask=None):
        cat, seg = sxdes._run_sep(image=image, noise=noise, config=config,
                                  thresh=thresh, mask=mask)
        if drop[int(abs(image[3, 3])*1e6) % 200]:
            cat, seg = cat[:0], seg*0
            dropped.append(1)
        return cat, seg
    with d01.fake_sep(scripted if p else None):
        plain, _ = run_scripted(conf, gsim.planes(mbobs), shear, det)
    keys = {"copy": ["k0", "k1"], "same": ["s"], "none": [None],
            "mixed": ["k0", "s", None]}[kind]
    rend["s"] = mbobs

    def func(flux):
        return keys[int(np.nansum(np.abs(flux))*7919) % len(keys)]
    del dropped[:]
    with d01.fake_sep(scripted if p else None):
        res, _ = run_scripted(conf, mbobs, shear, det, color_key_func=func,
                              color_dep_mbobs=rend)
    ctx.count("empty_detections", len(dropped))
    if plain is None:
        ctx.check(res is None, "equal-renderings/none")
        return
    ctx.require(res is not None, "equal-renderings/none")
    for t in conf["metacal"]["types"]:
        g03.same(ctx, res.get(t), plain.get(t), "equal-renderings", t=t)
        if plain.get(t) is not None:
            ctx.count("equal_rendering_rows", plain[t].size)
            ctx.count("rows", plain[t].size)
    ctx.nontrivial("equal", nband, kind, shear, det)


def run_scripted(conf, mbobs, shear, det, **kw):
    with gsim.fault(psf_fit=gsim.scripted_psf_fit()):
        return gsim.run(copy.deepcopy(conf), mbobs, shear_band_combs=shear,
                        det_band_combs=det, **kw)


def fam_refuse(ctx, rng, i):
    from metadetect.metadetect import do_metadetect
    mbobs = gsim.scene(rng, nband=1, n=64, ngal=2)
    conf = gsim.config(rng, "wmom")
    kw = [dict(color_key_func=lambda f: None),
          dict(color_dep_mbobs={}), None][i % 3]
    if kw is None:
        conf = gsim.config(rng, ["am", "gauss"][i % 2])
        kw = dict(color_key_func=lambda f: None, color_dep_mbobs={})
    ctx.describe(conf=conf, kw=list(kw))
    ctx.expect_raises(
        lambda: do_metadetect(conf, mbobs, np.random.RandomState(1), **kw),
        RuntimeError, "incomplete-colour-settings-accepted")
    ctx.count("refused")


FAMILIES = {"keys": (fam_keys, 110, 2000), "equal": (fam_equal, 48, 800),
            "refuse": (fam_refuse, 6, 12)}
