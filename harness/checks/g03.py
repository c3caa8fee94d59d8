import copy
import numpy as np
import ngmix
import gsim

PROPERTY = "G03"
RULE = ("full driver runs of lists of 1-4 shear/detection band combinations "
        "(repeated, permuted, with bands in which nothing is detected) "
        "against one run per combination on a fresh copy of the same "
        "observations; every joint row is one event; distinct by (nband, "
        "combinations, model, defaults used)")
REQUIRED = ["rows", "joint_runs", "repeated_combs", "same_bands_other_order",
            "default_det", "shear_bands_det", "explicit_det",
            "empty_comb_in_joint_run", "second_go", "default_shear",
            "multi_fitter_runs", "first_rows_random_fitter"]
ASSUMPTIONS = [
    "moment models are compared to rounding (they draw nothing after "
    "metacalibration); fitters with random guesses are compared exactly for "
    "the first combination and in their catalogue columns after that",
]
CASE_LIMIT = 200
SKIP = {"shear_bands", "det_bands"}


def same(ctx, got, want, mech, cols=None, exact=False, **w):
    if (got is None) or (want is None):
        return ctx.check((got is None) == (want is None), mech + "/empty",
                         got=None if got is None else got.size,
                         want=None if want is None else want.size, **w)
    ctx.require(got.size == want.size, mech + "/row-count", got=got.size,
                want=want.size, **w)
    ctx.check(set(got.dtype.names) == set(want.dtype.names),
              mech + "/columns", **w)
    for c in (cols or want.dtype.names):
        if exact or got.dtype[c].base.kind not in "f":
            ctx.equal(got[c], want[c], mech + "/value", col=c, **w)
        else:
            # the order of summation over bands is not specified
            f4 = got.dtype[c].base == np.float32
            ctx.close(got[c], want[c], mech + "/value",
                      rtol=1e-5 if f4 else 1e-9,
                      atol=1e-7 if f4 else 1e-12, col=c, **w)
    return True


def combs(rng, nband):
    def sub():
        k = int(rng.randint(1, nband+1))
        return [int(b) for b in rng.permutation(nband)[:k]]
    m = int(rng.randint(2, 5))
    if rng.uniform() < 0.06:
        m = int(rng.randint(5, 9))
    sh = [sub() for _ in range(m)]
    if rng.uniform() < 0.5:
        # a permutation or a repeat of an earlier combination
        j = int(rng.randint(m-1))
        sh[m-1] = [int(b) for b in rng.permutation(sh[j])]
    if nband == 4 and rng.uniform() < 0.5:
        # different sets that look alike (as many bands, the same sum)
        pair = [[0, 3], [1, 2]]
        j = rng.permutation(2)
        sh[0], sh[1] = pair[j[0]], pair[j[1]]
    elif nband > 2 and rng.uniform() < 0.4:
        # sets of which one is the beginning of the other
        k = int(rng.choice([rng.randint(1, nband), nband-1]))
        sh[0], sh[1] = list(range(k)), list(range(k+1))
        if rng.uniform() < 0.5:
            sh[0], sh[1] = sh[1], sh[0]
    de = [sub() for _ in range(m)]
    if rng.uniform() < 0.4:
        de[m-1] = list(de[0])
    return sh, de


def make_conf(rng, models):
    fc = [gsim.fitter_conf(rng, m) for m in models]
    conf = gsim.config(rng, None, wt=str(rng.choice(["weight", "uberseg"])))
    if len(fc) == 1:
        conf.update(fc[0])
    else:
        conf["fitters"] = fc
    if rng.uniform() < 0.4:
        conf["bmask_flags"] = int(2**30 | 2**rng.randint(0, 20))
    if rng.uniform() < 0.3:
        conf["nodet_flags"] = int(2**rng.randint(0, 20))
    if rng.uniform() < 0.4:
        conf["mask_region"] = 3
    if rng.uniform() < 0.4:
        conf["metacal"]["psf"] = str(rng.choice(["gauss", "dilate"]))
    return conf


def stack(parts):
    parts = [p for p in parts if p is not None]
    return np.hstack(parts) if parts else None


def fam_concat(ctx, rng, i):
    nband = int(rng.randint(2, 5))
    if rng.uniform() < 0.06:
        nband = int(rng.randint(5, 7))
    models = [str(m) for m in rng.permutation(["wmom", "ksigma", "pgauss"])[
        :int(rng.choice([1, 1, 2]))]]
    flux = None
    if rng.uniform() < 0.5:
        # nothing detectable in one band
        flux = rng.uniform(0.5, 1.5, size=nband)
        flux[rng.randint(nband)] = 1e-3
    mbobs = gsim.scene(rng, nband=nband, flux=flux,
                       close_pairs=rng.uniform() < 0.4)
    conf = make_conf(rng, models)
    if flux is not None:
        conf["sx"]["detect_thresh"] = 6.0
    sh, de = combs(rng, nband)
    mode = str(rng.choice(["explicit", "explicit", "none", "shear_bands"]))
    arg = dict(explicit=de, none=None, shear_bands="shear_bands")[mode]
    if mode == "none":
        de = [list(range(nband))]*len(sh)
    elif mode == "shear_bands":
        de = sh
    ctx.describe(nband=nband, conf=conf, sh=sh, det=arg, flux=flux)
    seed = int(rng.randint(2**30))
    joint, _ = gsim.run(copy.deepcopy(conf), gsim.planes(mbobs), seed=seed,
                        shear_band_combs=copy.deepcopy(sh),
                        det_band_combs=copy.deepcopy(arg))
    seps = [gsim.run(copy.deepcopy(conf), gsim.planes(mbobs), seed=seed,
                     shear_band_combs=[list(s)], det_band_combs=[list(d)])[0]
            for s, d in zip(sh, de)]
    if joint is None:
        ctx.check(all(s is None for s in seps), "joint-none")
        return
    ctx.require(all(s is not None for s in seps), "separate-none")
    ctx.count("joint_runs")
    for t in conf["metacal"]["types"]:
        parts = [s[t] for s in seps]
        want = stack(parts)
        same(ctx, joint.get(t), want, "joint-run", t=t, sh=sh, det=de)
        if want is not None:
            ctx.count("rows", want.size)
            if any(p is None for p in parts):
                ctx.count("empty_comb_in_joint_run")
    ctx.count(dict(explicit="explicit_det", none="default_det",
                   shear_bands="shear_bands_det")[mode])
    ks = [tuple(s) for s in sh]
    if len(set(ks)) < len(ks):
        ctx.count("repeated_combs")
    if len(set(tuple(sorted(k)) for k in ks)) < len(set(ks)):
        ctx.count("same_bands_other_order")
    if len(models) > 1:
        ctx.count("multi_fitter_runs")
    ctx.nontrivial(nband, tuple(ks), mode, tuple(models))
    ctx.sample(ctx.info)


def fam_defaults(ctx, rng, i):
    """omitted arguments mean all bands; asking one object twice is stable"""
    from metadetect.metadetect import Metadetect
    nband = int(rng.randint(1, 4))
    mbobs = gsim.scene(rng, nband=nband)
    conf = make_conf(rng, [str(rng.choice(["wmom", "ksigma", "pgauss"]))])
    seed = int(rng.randint(2**30))
    allb = list(range(nband))
    ctx.describe(nband=nband, conf=conf)
    md = Metadetect(copy.deepcopy(conf), gsim.planes(mbobs),
                    np.random.RandomState(seed))
    md.go()
    base = copy.deepcopy(md.result)
    want, _ = gsim.run(copy.deepcopy(conf), gsim.planes(mbobs), seed=seed,
                       shear_band_combs=[allb], det_band_combs=[allb])
    if want is None:
        ctx.check(base is None, "defaults-none")
        return
    ctx.require(base is not None, "defaults-none")
    for t in conf["metacal"]["types"]:
        same(ctx, base.get(t), want[t], "default-bands", t=t)
        if want[t] is not None:
            ctx.count("rows", want[t].size)
    ctx.count("default_shear")
    ctx.count("default_det")
    md.go()
    for t in conf["metacal"]["types"]:
        same(ctx, md.result.get(t), base.get(t), "second-go", t=t)
    ctx.count("second_go")
    ctx.nontrivial("defaults", nband, conf.get("model"))


def fam_random(ctx, rng, i):
    """fitters that draw: the first combination is exactly the lone run's"""
    nband = int(rng.randint(2, 5))
    mbobs = gsim.scene(rng, nband=nband)
    models = [["am"], ["admom"], ["gauss"], ["am", "wmom"]][i % 4]
    conf = make_conf(rng, models)
    sh, de = combs(rng, nband)
    sh, de = sh[:2], de[:2]
    types = conf["metacal"]["types"][:1]
    conf["metacal"]["types"] = types
    seed = int(rng.randint(2**30))
    ctx.describe(nband=nband, conf=conf, sh=sh, det=de)
    joint, _ = gsim.run(copy.deepcopy(conf), gsim.planes(mbobs), seed=seed,
                        shear_band_combs=sh, det_band_combs=de)
    seps = [gsim.run(copy.deepcopy(conf), gsim.planes(mbobs), seed=seed,
                     shear_band_combs=[s], det_band_combs=[d])[0]
            for s, d in zip(sh, de)]
    if joint is None:
        ctx.check(all(s is None for s in seps), "joint-none")
        return
    ctx.count("joint_runs")
    t = types[0]
    j, a, b = joint[t], seps[0][t], seps[1][t]
    want = stack([a, b])
    if want is None:
        ctx.check(j is None, "joint-run/empty")
        return
    ctx.require(j is not None and j.size == want.size,
                "joint-run/row-count", want=want.size)
    na = 0 if a is None else a.size
    if na:
        same(ctx, j[:na], a, "joint-run-random", t=t)
        ctx.count("first_rows_random_fitter", na)
    cols = [c for c in want.dtype.names
            if c.startswith(("sx_", "wmom_", "ormask", "bmask", "mfrac",
                             "psfrec", "shear_bands", "det_bands"))]
    same(ctx, j[na:], want[na:], "joint-run-random", cols=cols, t=t)
    ctx.count("rows", want.size)
    ctx.nontrivial("random", nband, str(sh), str(de), tuple(models))


FAMILIES = {"concat": (fam_concat, 90, 1500),
            "defaults": (fam_defaults, 40, 500),
            "random": (fam_random, 24, 300)}
_ = ngmix
