import copy
import random
import numpy as np
import ngmix
import gsim
from mon import snapshot, global_rng_state

PROPERTY = "G06"
RULE = ("histories of 3-5 full driver runs in one process over fresh copies of "
        "2-3 (scene, configuration, seed) requests with different fitters, "
        "weight types, band combinations, colour renderings and injected "
        "failures; each repeated request is one differential event, each run "
        "a snapshot event; distinct by (models, history, features)")
REQUIRED = ["repeat_events", "snapshot_events", "rows", "shared_config_runs",
            "am_runs", "gauss_runs", "color_runs", "simulated_noise_runs",
            "failed_runs", "multi_fitter_runs", "global_state_events",
            "same_object_rerun"]
ASSUMPTIONS = [
    "observation metadata (the result of the PSF fit) is not pixel data, "
    "weight or mask and may be attached to the inputs",
]
CASE_LIMIT = 250


def request(rng):
    nband = int(rng.randint(1, 4))
    mbobs = gsim.scene(rng, nband=nband, n=int(rng.randint(70, 82)),
                       ngal=int(rng.randint(1, 4)))
    models = [str(m) for m in rng.permutation(
        ["wmom", "ksigma", "pgauss", "am", "gauss"])[
            :int(rng.choice([1, 1, 2]))]]
    color = rng.uniform() < 0.25
    if color and models[0] in ("am", "gauss"):
        models[0] = "wmom"
        models = list(dict.fromkeys(models))
    fc = [gsim.fitter_conf(rng, m) for m in models]
    conf = gsim.config(rng, None, wt=str(rng.choice(["weight", "uberseg"])))
    if len(fc) == 1:
        conf.update(fc[0])
    else:
        conf["fitters"] = fc
    if rng.uniform() < 0.3:
        conf["nodet_flags"] = int(2**rng.randint(0, 20))
    if rng.uniform() < 0.3:
        conf["metacal"].pop("use_noise_image")
    if rng.uniform() < 0.3:
        conf["mask_region"] = 3
    if rng.uniform() < 0.3:
        # leave things to the defaults
        conf.pop("sx")
        conf["meds"].pop("weight_type")
    shear, det = gsim.rand_combs(rng, nband)
    rend = None
    if color:
        rend = {"a": gsim.planes(mbobs), "b": mbobs}
    fl = None
    if rng.uniform() < 0.12:
        fl = str(rng.choice(["metacal", "psf_fit"]))
    return dict(mbobs=mbobs, models=models, conf=conf, shear=shear, det=det,
                rend=rend, fault=fl, seed=int(rng.randint(2**30)))


def boom(obs):
    raise ngmix.gexceptions.BootPSFFailure("injected")


def bad(o, res):
    return dict(flags=8)


def do(ctx, q, rng, share_conf=False, mbobs=None):
    from metadetect.metadetect import do_metadetect
    mb = gsim.planes(q["mbobs"]) if mbobs is None else mbobs
    rend = None
    if q["rend"] is not None:
        rend = {"a": gsim.planes(q["rend"]["a"]), "b": mb}
    conf = q["conf"] if share_conf else copy.deepcopy(q["conf"])
    kw = dict(shear_band_combs=copy.deepcopy(q["shear"]),
              det_band_combs=copy.deepcopy(q["det"]))
    if rend is not None:
        kw.update(color_key_func=lambda f: "a" if np.nansum(f) > 200 else "b",
                  color_dep_mbobs=rend)
    kinds = dict(metacal=boom, psf_fit=bad)
    fl = {q["fault"]: kinds[q["fault"]]} if q["fault"] else {}
    # global state must not matter and must not move
    np.random.seed(int(rng.randint(2**30)))
    random.seed(int(rng.randint(2**30)))
    before = dict(
        mb=snapshot(mb), conf=snapshot(conf), rng=global_rng_state(),
        comb=snapshot([kw["shear_band_combs"], kw["det_band_combs"]]),
        rend=None if rend is None else snapshot(rend["a"]))
    with gsim.fault(**fl):
        res = do_metadetect(conf, mb, np.random.RandomState(q["seed"]), **kw)
    w = dict(models=q["models"], fault=q["fault"])
    ctx.check(global_rng_state() == before["rng"],
              "global-random-state-moved", **w)
    ctx.count("global_state_events")
    ctx.unchanged(before["mb"], mb, "inputs-modified", **w)
    ctx.unchanged(before["conf"], conf, "config-modified", **w)
    ctx.unchanged(before["comb"], [kw["shear_band_combs"],
                                   kw["det_band_combs"]],
                  "combinations-modified", **w)
    if rend is not None:
        ctx.unchanged(before["rend"], rend["a"], "renderings-modified", **w)
        ctx.check(set(rend) == {"a", "b"}, "renderings-modified", **w)
    ctx.count("snapshot_events")
    if res is None or q["fault"]:
        ctx.count("failed_runs")
    return res


def same(ctx, a, b, mech, **w):
    if a is None or b is None:
        ctx.check(a is None and b is None, mech + "/none", **w)
        return
    ctx.check(sorted(a) == sorted(b), mech + "/types", **w)
    for t in a:
        if a[t] is None or b[t] is None:
            ctx.check(a[t] is None and b[t] is None, mech + "/empty", t=t,
                      **w)
            continue
        ctx.require(a[t].dtype == b[t].dtype and a[t].shape == b[t].shape,
                    mech + "/layout", t=t, **w)
        for c in a[t].dtype.names:
            ctx.equal(a[t][c], b[t][c], mech + "/value", t=t, col=c, **w)
        ctx.count("rows", a[t].size)


def fam_history(ctx, rng, i):
    qs = [request(rng) for _ in range(int(rng.randint(1, 3)))]
    nstep = int(rng.randint(1, 3))
    hist = list(range(len(qs))) + [int(rng.randint(len(qs)))
                                   for _ in range(nstep)]
    ctx.describe(models=[q["models"] for q in qs], hist=hist,
                 conf=[q["conf"] for q in qs],
                 comb=[(q["shear"], q["det"]) for q in qs],
                 fault=[q["fault"] for q in qs])
    first, live = {}, {}
    for h in hist:
        q = qs[h]
        share = bool(rng.uniform() < 0.5)
        mb = None
        if h in live and rng.uniform() < 0.4:
            # the very same observations again
            mb = live[h]
            ctx.count("same_object_rerun")
        else:
            mb = gsim.planes(q["mbobs"])
            live[h] = mb
        res = do(ctx, q, rng, share, mbobs=mb)
        if share:
            ctx.count("shared_config_runs")
        for m in q["models"]:
            if m in ("am", "gauss"):
                ctx.count(m + "_runs")
        if q["rend"] is not None:
            ctx.count("color_runs")
        if "use_noise_image" not in q["conf"]["metacal"]:
            ctx.count("simulated_noise_runs")
        if len(q["models"]) > 1:
            ctx.count("multi_fitter_runs")
        if h in first:
            same(ctx, first[h], res, "repeat-differs", models=q["models"],
                 hist=hist)
            ctx.count("repeat_events")
        else:
            first[h] = copy.deepcopy(res)
    ctx.nontrivial(str([q["models"] for q in qs]), str(hist),
                   [q["rend"] is not None for q in qs])
    ctx.sample(ctx.info)


FAMILIES = {"history": (fam_history, 110, 2000)}
