import copy
import numpy as np
import ngmix
import gsim
from mon import snapshot

PROPERTY = "G08"
RULE = ("full driver runs on small multi-band scenes (1-3 bands, 2-5 "
        "galaxies, close pairs, masks, weight holes) x single and multiple "
        "fitters with random settings x weight types x shear/detection band "
        "combinations x mask flags; every row is one event, recomputed from "
        "the logged metacalibrated images and extractions; distinct by "
        "(models, nband, weight type, combinations, types)")
REQUIRED = ["relabelled_runs", "rows", "rows_measured", "rows_flagged", "uberseg_rows",
            "multi_fitter_runs", "multi_comb_runs", "am_rows", "gauss_rows",
            "reg_rows", "four_band_runs", "mixed_symmetrize", "metacal_events", "edge_masked_rows"]
ASSUMPTIONS = [
    "metacalibration, moment and Gaussian fitters are the ngmix stand-ins; "
    "the reference rows use the same stand-in fitters on independently cut "
    "stamps and an independent band combination",
    "adaptive moments and Gaussian fits start from random guesses and are "
    "compared to 2e-3 of their value or a tenth of the error",
]
CASE_LIMIT = 200
COLS = ("T", "T_err", "g", "s2n", "psf_T", "psf_g", "T_ratio")


def compare(ctx, row, pre, want, rtol, atol=1e-9, **w):
    for c in COLS:
        if c not in want:
            continue
        col = "%s_%s" % (pre, c)
        a = atol
        r = rtol
        if c == "T_ratio":
            a, r = max(atol, 1e-6), 3*rtol
        ctx.close(row[col], want[c], "row-value/%s/%s" % (
            pre.split("_")[0], c), rtol=r, atol=a, **w)


def near(row, pre, want):
    return abs(row[pre + "_T"] - want["T"]) <= 0.01*abs(want["T"]) and \
        np.all(np.abs(row[pre + "_g"] - want["g"]) <= 5e-3)


def check_rows(ctx, conf, fcfgs, mbobs, res, log, shear, det, nodet):
    """every row of every type against the log"""
    nband = len(mbobs)
    sh, de = gsim.norm_combs(nband, shear, det)
    bfl = conf.get("bmask_flags", 0)
    ctx.require(len(log.metacal) >= 1, "no-metacal")
    ev = log.metacal[0]
    ctx.count("metacal_events", len(log.metacal))
    wt = conf["meds"].get("weight_type", "weight")
    for t in conf["metacal"]["types"]:
        ctx.require(t in ev["odict"], "type-not-metacalibrated", t=t)
        od = ev["odict"][t]
        rows = res.get(t)
        k = 0
        for s, d in zip(sh, de):
            e, bs = gsim.det_rows(log, od, d, nodet, conf)
            ctx.require(e is not None, "detection-not-on-this-type-and-bands",
                        t=t, det=d)
            cat = e["cat"]
            for i in range(cat.size):
                ctx.require(rows is not None and k < rows.size,
                            "row-missing", t=t, have=0 if rows is None
                            else rows.size, k=k)
                row = rows[k]
                w = dict(t=t, shear=s, det=d, i=i)
                ctx.equal(np.float32(row["sx_row"]), np.float32(cat["y"][i]),
                          "row-position", **w)
                ctx.equal(np.float32(row["sx_col"]), np.float32(cat["x"][i]),
                          "row-position", **w)
                ctx.equal(str(row["shear_bands"]),
                          "".join(str(b) for b in sorted(s)),
                          "row-shear-bands", **w)
                k += 1
                if bs[i] < 0:
                    continue
                stamps = [gsim.cut(od[b][0], cat["x"][i], cat["y"][i],
                                   int(bs[i]), e["seg"], cat["number"][i],
                                   wt) for b in range(nband)]
                one_row(ctx, fcfgs, stamps, row, s, bfl, w)
                ctx.count("rows")
                if wt == "uberseg" and any(
                        np.any(a.weight != b.weight) for a, b in zip(
                            stamps, [gsim.cut(
                                od[b][0], cat["x"][i], cat["y"][i],
                                int(bs[i]), e["seg"], cat["number"][i],
                                "weight") for b in range(nband)])):
                    ctx.count("uberseg_rows")
        ctx.require((0 if rows is None else rows.size) == k, "extra-rows",
                    t=t, k=k)


def one_row(ctx, fcfgs, stamps, row, s, bfl, w):
    masked = any(np.any(o.bmask & bfl) for o in stamps)
    if masked:
        ctx.count("edge_masked_rows")
    for f in fcfgs:
        pre = gsim.prefix(f)
        m = f["model"]
        flags = int(row[pre + "_flags"])
        if m in ("wmom", "ksigma", "pgauss"):
            want = gsim.ref_wavg(f, stamps, s, bfl)
            if want is not None and not (
                    np.all(np.isfinite(np.hstack(
                        [np.ravel(v) for v in want.values()])))
                    and want["T"] > 0 and want["psf_T"] > 0
                    and want["s2n"] > 0):
                want = None
            if want is None:
                ctx.check(flags != 0, "unmeasurable-row-not-flagged/" + m,
                          **w)
                ctx.count("rows_flagged")
                continue
            ctx.require(flags == 0, "clean-row-flagged/" + m, flags=flags,
                        **w)
            compare(ctx, row, pre, want, 1e-5, 1e-7, **w)
            ctx.close(row[pre + "_band_flux"], want["band_flux"]
                      if len(stamps) > 1 else want["band_flux"][0],
                      "row-band-flux/" + m, rtol=1e-5, atol=1e-7, **w)
            ctx.close(row[pre + "_band_flux_err"], want["band_flux_err"]
                      if len(stamps) > 1 else want["band_flux_err"][0],
                      "row-band-flux-err/" + m, rtol=1e-5, atol=1e-7, **w)
            ctx.count("rows_measured")
            if f["weight"].get("fwhm_reg", 0) > 0:
                ctx.count("reg_rows")
        elif m in ("am", "admom"):
            want = gsim.ref_am(f, stamps, s, bfl)
            if want is None:
                ctx.count("rows_flagged")
                if masked:
                    ctx.check(flags != 0, "masked-row-not-flagged/am", **w)
                continue
            if flags != 0:
                # may fail to converge from another guess
                ctx.count("am_other_guess")
                continue
            if not near(row, pre, want):
                # stamps with two objects have more than one solution
                alt = [gsim.ref_am(f, stamps, s, bfl, seed=sd)
                       for sd in range(15)]
                if any(a is None or abs(a["T"] - want["T"]) > 0.02*want["T"]
                       for a in alt):
                    ctx.count("am_guess_dependent")
                    continue
            compare(ctx, row, pre, want, 5e-3, 2e-3, **w)
            ctx.count("am_rows")
            ctx.count("rows_measured")
        else:
            from metadetect.fitting import fit_mbobs_list_joint
            if masked:
                ctx.check(flags != 0, "masked-row-not-flagged/gauss", **w)
                ctx.count("rows_flagged")
                continue
            mb = ngmix.MultiBandObsList()
            for o in stamps:
                ol = ngmix.ObsList()
                ol.append(o.copy())
                mb.append(ol)

            def refit(sd):
                return fit_mbobs_list_joint(
                    mbobs_list=[mb], fitter_name="gauss", shear_bands=s,
                    bmask_flags=bfl, rng=np.random.RandomState(sd),
                    symmetrize=f.get("symmetrize", True),
                    coadd=f.get("coadd", False))[0]
            rs = [refit(sd) for sd in (5, 6, 7)]
            r = rs[0]
            if abs(row["gauss_T"] - r["gauss_T"]) > 0.1*abs(r["gauss_T_err"]):
                # other solutions are looked for before it is called wrong
                rs += [refit(sd) for sd in range(10, 25)]
            if flags != 0 or any(int(q["gauss_flags"]) for q in rs):
                ctx.count("gauss_flagged")
                continue
            if max(abs(q["gauss_T"] - r["gauss_T"]) for q in rs) > (
                    0.02*abs(r["gauss_T_err"])):
                # where the fit stops depends on where it started
                ctx.count("gauss_guess_dependent")
                continue
            if flags != 0 or int(r["gauss_flags"]) != 0:
                ctx.count("gauss_flagged")
                continue
            want = {c: r["gauss_" + c] for c in COLS}
            ge = np.sqrt(np.diag(np.atleast_2d(r["gauss_g_cov"])).max())
            if not (want["s2n"] > 25 and ge < 0.1):
                ctx.count("gauss_faint")
                continue
            ctx.close(row["gauss_g"], want["g"], "row-value/gauss/g",
                      rtol=0, atol=1e-3 + 0.2*ge, **w)
            ctx.close(row["gauss_T"], want["T"], "row-value/gauss/T",
                      rtol=1e-3, atol=0.2*want["T_err"], **w)
            ctx.close(row["gauss_s2n"], want["s2n"], "row-value/gauss/s2n",
                      rtol=2e-2, **w)
            ctx.close(row["gauss_psf_T"], want["psf_T"],
                      "row-value/gauss/psf_T", rtol=1e-2, **w)
            bf, wf = row["gauss_band_flux"], r["gauss_band_flux"]
            ctx.close(np.isnan(bf), np.isnan(wf), "row-band-flux/gauss-nan",
                      **w)
            we = r["gauss_band_flux_err"]
            ok = np.isfinite(wf)
            ctx.check(np.all(np.abs(np.atleast_1d(bf)[np.atleast_1d(ok)]
                                    - np.atleast_1d(wf)[np.atleast_1d(ok)])
                             < 0.2*np.atleast_1d(we)[np.atleast_1d(ok)]
                             + 1e-3*np.abs(np.atleast_1d(wf)[
                                 np.atleast_1d(ok)])),
                      "row-band-flux/gauss", got=bf, want=wf, err=we, **w)
            ctx.count("gauss_rows")
            ctx.count("rows_measured")


def gen(ctx, rng, models, joint):
    nband = int(rng.choice([1, 2, 3, 1, 2, 3, 4]))
    ctx.count("four_band_runs", int(nband == 4))
    mbobs = gsim.scene(rng, nband=nband, close_pairs=rng.uniform() < 0.5,
                       vary_psf_dim=not set(models) & {"am", "admom", "gauss"})
    if len(models) == 1:
        f = gsim.fitter_conf(rng, models[0])
        fc = [f]
        top = copy.deepcopy(f)
    else:
        fc = [gsim.fitter_conf(rng, m) for m in models]
        if rng.uniform() < 0.5:
            # each fitter has its own
            v = bool(rng.uniform() < 0.5)
            for j, f in enumerate(fc):
                f["symmetrize"] = v if j % 2 else not v
            ctx.count("mixed_symmetrize")
        top = dict(fitters=copy.deepcopy(fc))
    wt = str(rng.choice(["weight", "uberseg"]))
    conf = gsim.config(rng, None, wt=wt)
    conf.update(top)
    u = rng.uniform()
    if u < 0.25:
        conf["bmask_flags"] = 2**30
    elif u < 0.45:
        conf["bmask_flags"] = int(2**30 | 2**rng.randint(0, 20))
    nodet = 0
    if rng.uniform() < 0.3:
        nodet = int(2**rng.randint(0, 20))
        conf["nodet_flags"] = nodet
    if rng.uniform() < 0.4:
        conf["metacal"]["step"] = float(rng.choice([0.005, 0.02, 0.03]))
    if "gauss" in models:
        # the fit is well determined on stamps that hold the object
        conf["meds"] = gsim.meds_conf(None, wt)
    if rng.uniform() < 0.3:
        conf["meds"].update(box_type="sigma_size", sigma_fac=5.0)
    if rng.uniform() < 0.3:
        conf["meds"].pop("weight_type")
    shear, det = gsim.rand_combs(rng, nband)
    return mbobs, conf, fc, shear, det, nodet, nband


def drive(ctx, rng, models, joint):
    mbobs, conf, fc, shear, det, nodet, nband = gen(ctx, rng, models, joint)
    ctx.describe(nband=nband, conf=conf, shear=shear, det=det)
    kw = {}
    if shear is not None:
        kw["shear_band_combs"] = shear
    if det is not None:
        kw["det_band_combs"] = det
    keep = copy.deepcopy(conf)
    faults = gsim.ngmix.log.faults
    if rng.uniform() < 0.5:
        # segment numbers with gaps, in no particular order
        seed = int(rng.randint(2**31))

        def relabel(cat, seg):
            num = 1 + np.random.RandomState(seed).permutation(
                2*cat.size + 1)[:cat.size]
            table = np.zeros(cat.size + 1, dtype=seg.dtype)
            table[cat["number"]] = num
            cat = cat.copy()
            cat["number"] = num
            return cat, table[seg]
        faults["sep_relabel"] = relabel
        ctx.count("relabelled_runs")
    try:
        res, log = gsim.run(copy.deepcopy(conf), mbobs, **kw)
    finally:
        faults.pop("sep_relabel", None)
    ctx.require(res is not None, "no-result")
    ctx.check(set(res) == set(conf["metacal"]["types"]), "types",
              got=sorted(res))
    check_rows(ctx, keep, fc, mbobs, res, log, shear, det, nodet)
    ev = log.metacal[0]
    ctx.check(ev["step"] == conf["metacal"].get("step", 0.01)
              and ev["psf"] == conf["metacal"]["psf"],
              "metacal-settings-lost", step=ev["step"])
    for e in log.sep:
        ctx.close(e["thresh"], conf["sx"]["detect_thresh"], "threshold-lost")
    if len(models) > 1:
        ctx.count("multi_fitter_runs")
    if shear is not None and len(shear) > 1:
        ctx.count("multi_comb_runs")
    ctx.nontrivial(tuple(models), nband, conf["meds"].get("weight_type"),
                   shear, det, conf["metacal"]["types"])
    ctx.sample(ctx.info)


def fam_wavg(ctx, rng, i):
    allm = ["wmom", "ksigma", "pgauss"]
    k = int(rng.choice([1, 1, 2, 3]))
    drive(ctx, rng, [str(m) for m in rng.permutation(allm)[:k]], False)


def fam_joint(ctx, rng, i):
    m = ["am", "admom", "gauss"][i % 3]
    models = [m]
    if rng.uniform() < 0.5:
        models.insert(int(rng.randint(2)), str(rng.choice(
            ["wmom", "ksigma", "pgauss"])))
    drive(ctx, rng, models, True)


FAMILIES = {"wavg": (fam_wavg, 160, 3000), "joint": (fam_joint, 72, 1200)}
_ = snapshot
