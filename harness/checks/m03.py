import numpy as np
import common
from mon import snapshot, global_rng_state, jsonable

PROPERTY = "M03"
RULE = ("random multi-band (1-4) multi-epoch (1-2) observations with and "
        "without masked-fraction planes and with zero-weight pixels x hostile "
        "hole lists x the three methods x expansion radii x symmetrize; "
        "non-trivial when some pixel changed; distinct by (method, hole kind, "
        "bands, epochs, mfrac?, symmetrize, expanded?, coverage class)")
REQUIRED = ["interp_cases", "interp-noise_cases", "apodize_cases",
            "all_masked_cases", "expanded_pixels", "noise_filled_cases",
            "method_refused", "untouched_cases"]
ASSUMPTIONS = [
    "observation container semantics are those of the ngmix stand-in",
]


def warmup():
    from metadetect import masking
    rng = np.random.RandomState(1)
    for m in ("interp", "interp-noise", "apodize"):
        mb = common.make_mbobs(rng, (12, 12), 1)
        run(masking, mb, np.array([5.0]), np.array([5.0]), np.array([4.0]),
            m, 2, rng, True, 1, 1.0)


BITS = dict(mask=2**0, expand=2**5, interp=2**9)


def run(masking, mb, xm, ym, rm, method, expand, rng, sym, iso, ap,
        bits=BITS):
    masking.apply_foreground_masking_corrections(
        mbobs=mb, xm=xm, ym=ym, rm=rm, method=method,
        mask_expand_rad=expand, mask_bit_val=bits["mask"],
        expand_mask_bit_val=bits["expand"], interp_bit_val=bits["interp"],
        symmetrize=sym, ap_rad=ap, iso_buff=iso, rng=rng)


def case(ctx, rng, kinds=None, method=None):
    sym = bool(rng.uniform() < 0.4)
    k = rng.randint(4)
    if sym or k < 2:
        n = int(rng.choice([9, 14, 24, 33]))
        dims = (n, n)
    else:
        dims = (int(rng.randint(8, 40)), int(rng.randint(8, 40)))
    many = rng.uniform() < 0.06
    if many and rng.uniform() < 0.3:
        dims = (int(rng.randint(90, 180)), int(rng.randint(20, 180)))
        if sym:
            dims = (dims[0], dims[0])
    kind = rng.choice(kinds) if kinds else None
    xm, ym, rm, kind = common.gen_holes(rng, dims, nmax=4, kind=kind)
    method = method or str(rng.choice(["interp", "interp-noise", "apodize"]))
    expand = float(rng.choice([0, 0, 1, 2.5, 8, 16]))
    ap = float(rng.choice([0.5, 1.0, 1.5, 2.0]))
    iso = int(rng.choice([1, 1, 2, 3]))
    nband = int(rng.randint(1, 5))
    nep = 2 if rng.uniform() < 0.25 else 1
    if many:
        # every band and every epoch, however many
        nband, nep = [(int(rng.randint(5, 9)), 1),
                      (1, int(rng.randint(3, 8)))][rng.randint(2)]
    bits = dict(zip(("mask", "expand", "interp"),
                    (int(2**b) for b in rng.permutation(31)[:3])))
    # a quarter of the cases: masked fractions only in some of the bands
    mb = common.make_mbobs(
        rng, dims, nband, nepoch=nep,
        with_mfrac="some" if rng.uniform() < 0.25 else None)
    ctx.describe(dims=dims, kind=kind, xm=xm, ym=ym, rm=rm, method=method,
                 expand=expand, ap=ap, iso=iso, nband=nband, nep=nep,
                 sym=sym, bits=bits)
    return mb, dims, xm, ym, rm, kind, method, expand, ap, iso, sym, bits


def fam_planes(ctx, rng, i):
    from metadetect import masking
    kinds = None
    if i % 8 == 0:
        kinds = ["huge"]
    mb, dims, xm, ym, rm, kind, method, expand, ap, iso, sym, bits = case(
        ctx, rng, kinds=kinds)
    if rng.uniform() < 0.1 and dims[0] == dims[1]:
        # an observation with weight only inside the holes
        ins, _ = common.ref_hole_mask(xm, ym, rm, dims)
        if sym:
            ins = ins | np.rot90(ins)
        if ins.any():
            o = mb[rng.randint(len(mb))][0]
            with o.writeable():
                o.weight[~ins] = 0
                if not (o.weight > 0).any() or rng.uniform() < 0.2:
                    o.ignore_zero_weight = False
            ctx.count("weightless_outside_cases")
            ctx.describe(weightless=True)
    before = common.mb_planes(mb)
    ignored = common.mb_ignore(mb)
    jacs = [[repr(o.jacobian) for o in ol] for ol in mb]
    metas = [[dict(o.meta) for o in ol] for ol in mb]
    snaps = [snapshot(v) for v in (xm, ym, rm)]
    seed = int(rng.randint(2**31))
    g0 = global_rng_state()
    run(masking, mb, xm, ym, rm, method, expand,
        np.random.RandomState(seed), sym, iso, ap, bits)
    ctx.check(g0 == global_rng_state(), "global-rng-consumed")
    for s, v in zip(snaps, (xm, ym, rm)):
        ctx.unchanged(s, v, "hole-list-modified")
    ctx.count(method + "_cases")

    inside, undec = common.ref_hole_mask(xm, ym, rm, dims)
    win = common.ref_hole_window(xm, ym, rm, dims, ap)
    einside, eundec = common.ref_hole_mask(xm, ym, rm + expand, dims)
    if sym:
        inside = inside | np.rot90(inside)
        win = win*np.rot90(win)
        einside = einside | np.rot90(einside)
        eundec = eundec | np.rot90(eundec)
        undec = undec | np.rot90(undec)
    if undec.any() or eundec.any():
        ctx.count("rim_rounding_skipped")
        return
    if method == "apodize":
        # a window value that rounds to one is not distinguishable
        touched = win < 1 - 1e-12
        maybe = (win < 1 + 1e-12) & inside & ~touched
        if maybe.any():
            ctx.count("rim_rounding_skipped")
            return
    else:
        touched = inside
    if expand <= 0:
        einside = np.zeros(dims, dtype=bool)
    allm = bool(touched.all())
    ctx.count("expanded_pixels", (einside & ~touched).sum())
    if allm:
        ctx.count("all_masked_cases")
    if not touched.any() and not einside.any():
        ctx.count("untouched_cases")

    ctx.equal([len(ol) for ol in mb], [len(ol) for ol in before],
              "observations-lost")
    degenerate = []
    for b, ol in enumerate(mb):
        for e, obs in enumerate(ol):
            old = before[b][e]
            new = common.planes(obs)
            w = dict(band=b, epoch=e)
            ctx.equal(sorted(new), sorted(old), "planes-present", **w)
            common.check_pixels(ctx, obs, ignored[b][e], **w)
            ctx.check(repr(obs.jacobian) == jacs[b][e], "jacobian-changed", **w)
            ctx.check(dict(obs.meta) == metas[b][e], "meta-changed", **w)
            ctx.equal(new["ormask"], old["ormask"], "ormask-changed", **w)
            # the whole observation may be given up on when the holes leave
            # nothing to interpolate from: then it must be fully masked
            gave_up = (
                method != "apodize" and touched.any() and not allm
                and np.all(new["weight"] == 0)
                and np.all((new["bmask"] & bits["mask"]) != 0)
                and not ((old["weight"][~touched] == 0).all()
                         and (old["bmask"][~touched]
                              & bits["mask"] != 0).all())
            )
            if gave_up:
                degenerate.append((b, e))
                t = np.ones(dims, dtype=bool)
            else:
                t = touched
            # weights
            ctx.check(np.all(new["weight"][t] == 0), "weight-in-hole", **w)
            ctx.equal(new["weight"][~t], old["weight"][~t],
                      "weight-outside", **w)
            # mfrac
            if "mfrac" in old:
                ctx.check(np.all(new["mfrac"][t] == 1), "mfrac-in-hole", **w)
                ctx.equal(new["mfrac"][~t], old["mfrac"][~t],
                          "mfrac-outside", **w)
            # bits
            want = old["bmask"].astype('i8')
            want = want | np.where(t, bits["mask"], 0)
            if method != "apodize" and not allm and not gave_up:
                want = want | np.where(t, bits["interp"], 0)
            want = want | np.where(einside, bits["expand"], 0)
            ctx.equal(new["bmask"].astype('i8'), want, "bit-mask", **w)
            # pixels
            for name in ("image", "noise"):
                if method == "apodize":
                    # where the window is one nothing may change at all
                    ctx.equal(new[name][~t], old[name][~t],
                              name + "-outside", **w)
                    ctx.close(new[name], old[name]*win,
                              name + "-apodized", rtol=1e-9, atol=1e-9, **w)
                elif allm or gave_up:
                    pass
                else:
                    ctx.equal(new[name][~t], old[name][~t],
                              name + "-outside", **w)
                    ctx.check(np.all(np.isfinite(new[name])),
                              name + "-not-finite", **w)
    if degenerate:
        ctx.count("gave_up_cases")
        # only legitimate when the good pixels cannot carry an interpolant
        ctx.check(few_or_collinear(~touched), "gave-up-with-good-pixels",
                  ngood=int((~touched).sum()))
    if touched.any() or einside.any():
        ctx.nontrivial(method, kind, len(mb), len(mb[0]),
                       "mfrac" in before[0][0], sym, expand > 0,
                       int(4*touched.mean()))
        ctx.sample(ctx.info)


def few_or_collinear(good):
    pts = np.array(np.where(good)).T
    if pts.shape[0] < 4:
        return True
    d = pts - pts[0]
    return np.linalg.matrix_rank(d) < 2


def fam_fill(ctx, rng, i):
    """interpolated content depends only on the good pixels; noise filling
    only on the random stream and the weight"""
    from metadetect import masking
    method = str(rng.choice(["interp", "interp-noise"]))
    mb, dims, xm, ym, rm, kind, method, expand, ap, iso, sym, bits = case(
        ctx, rng, kinds=["random", "random", "lattice", "dup", "edge"],
        method=method)
    inside, undec = common.ref_hole_mask(xm, ym, rm, dims)
    if sym:
        inside = inside | np.rot90(inside)
    if not inside.any() or inside.all() or few_or_collinear(~inside):
        ctx.count("fill_skipped")
        return
    seed = int(rng.randint(2**31))
    a = mb
    b = mb.copy()
    c = mb.copy()
    d = mb.copy()
    for ol in d:
        for o in ol:
            im = o.image.copy()
            with o.writeable():
                o.noise[:, :] = im
    for ol in b:
        for o in ol:
            with o.writeable():
                o.image[inside] = 1e6*rng.normal(size=int(inside.sum()))
                o.noise[inside] = 1e6*rng.normal(size=int(inside.sum()))
                # the old weight inside the hole must not matter either
                o.weight[inside] = 1e4
    # c: image and noise planes exchanged -> results exchanged (interp)
    for ol in c:
        for o in ol:
            im, ns = o.image.copy(), o.noise.copy()
            with o.writeable():
                o.image[:, :] = ns
                o.noise[:, :] = im
    for m in (a, b, c, d):
        run(masking, m, xm, ym, rm, method, expand,
            np.random.RandomState(seed), sym, iso, ap, bits)
    for bi in range(len(a)):
        for ei in range(len(a[bi])):
            pa, pb, pc = (common.planes(m[bi][ei]) for m in (a, b, c))
            w = dict(band=bi, epoch=ei)
            for name in ("image", "noise"):
                ctx.close(pb[name], pa[name], name+"-fill-uses-bad-pixels",
                          rtol=1e-7, atol=1e-7, **w)
            if method == "interp":
                pd = common.planes(d[bi][ei])
                ctx.close(pd["noise"], pd["image"],
                          "equal-planes-interpolated-differently",
                          rtol=1e-9, atol=1e-9, **w)
                ctx.close(pc["noise"], pa["image"],
                          "noise-not-interpolated-like-image",
                          rtol=1e-5, atol=1e-5, **w)
                ctx.close(pc["image"], pa["noise"],
                          "image-not-interpolated-like-noise",
                          rtol=1e-5, atol=1e-5, **w)
    ctx.count("fill_cases")
    ctx.nontrivial("fill", method, kind, sym, int(4*inside.mean()))


def fam_noise(ctx, rng, i):
    """interp-noise: deep inside a hole the image and noise planes hold
    independent noise with the variance the weights say"""
    from metadetect import masking
    n = 60
    nband = int(rng.randint(1, 4))
    mb = common.make_mbobs(rng, (n, n), nband, weight_kind="flat")
    sigs = []
    uneven = bool(rng.randint(2))
    for ol in mb:
        v = 10**rng.uniform(-10, 10)
        for o in ol:
            with o.writeable():
                o.weight[:, :] = 1/v
                if uneven:
                    # the typical level is that of the pixels with weight:
                    # the weights below and above it are equally many, and
                    # the weightless ones do not enter
                    k = rng.randint(3, size=(n, n))
                    k[rng.uniform(size=(n, n)) < 0.25] = 3
                    npos = min(int((k == 0).sum()), int((k == 2).sum()))
                    for lev in (0, 2):
                        y, x = np.where(k == lev)
                        k[y[npos:], x[npos:]] = 1
                    o.weight[:, :] = np.array([0.3, 1, 5, 0])[k]/v
                o.image[:, :] += 1e5*max(1.0, np.sqrt(v))
            sigs.append(np.sqrt(v))
    r = float(rng.choice([14, 25]))
    before = common.mb_planes(mb)
    seed = int(rng.randint(2**31))
    mb2 = mb.copy()
    mb3 = mb.copy()
    args = (np.array([29.5]), np.array([29.5]), np.array([r]), "interp-noise",
            0)
    run(masking, mb, *args, np.random.RandomState(seed), False, 1, 1.0)
    run(masking, mb2, *args, np.random.RandomState(seed), False, 1, 1.0)
    run(masking, mb3, *args, np.random.RandomState(seed+1), False, 1, 1.0)
    rows, cols = np.mgrid[0:n, 0:n]
    deep = (rows-29.5)**2 + (cols-29.5)**2 < (r-4)**2
    ctx.describe(sigs=sigs, seed=seed)
    allv = []
    for b in range(nband):
        o, o2, o3 = mb[b][0], mb2[b][0], mb3[b][0]
        for name in ("image", "noise"):
            v = getattr(o, name)[deep]/sigs[b]
            allv.append(v)
            nn = v.size
            ctx.check(abs(v.mean()) < 6/np.sqrt(nn), "noise-fill-mean",
                      mean=v.mean(), band=b, plane=name)
            ctx.check(abs(v.std()-1) < 6/np.sqrt(2*nn), "noise-fill-std",
                      std=v.std(), band=b, plane=name)
            ctx.equal(getattr(o, name), getattr(o2, name),
                      "noise-fill-not-reproducible", band=b, plane=name)
            ctx.check(not np.array_equal(
                getattr(o, name)[deep], getattr(o3, name)[deep]),
                "noise-fill-ignores-rng", band=b, plane=name)
            ctx.check(not np.array_equal(
                getattr(o, name)[deep], before[b][0][name][deep]),
                "noise-not-filled", band=b, plane=name)
    for x in range(len(allv)):
        for y in range(x):
            c = np.corrcoef(allv[x], allv[y])[0, 1]
            ctx.check(abs(c) < 6/np.sqrt(allv[x].size),
                      "noise-fill-correlated", corr=c, pair=[x, y])
    ctx.count("noise_filled_cases")
    ctx.nontrivial("noise", nband, int(np.log10(sigs[0])))


def fam_badmethod(ctx, rng, i):
    from metadetect import masking
    mb, dims, xm, ym, rm, kind, method, expand, ap, iso, sym, bits = case(
        ctx, rng)
    bad = str(rng.choice(["", "INTERP", "interp_noise", "none", "apod",
                          "noise", "interp "]))
    before = snapshot(mb)
    ok = ctx.expect_raises(
        lambda: run(masking, mb, xm, ym, rm, bad, expand,
                    np.random.RandomState(1), sym, iso, ap, bits),
        (RuntimeError, ValueError, KeyError), "unknown-method-accepted",
        method=bad)
    if ok:
        ctx.count("method_refused")
        ctx.unchanged(before, mb, "refused-call-modified-data")
    ctx.nontrivial("bad", bad)


FAMILIES = {
    "planes": (fam_planes, 900, 12000),
    "fill": (fam_fill, 250, 3000),
    "noise": (fam_noise, 24, 300),
    "badmethod": (fam_badmethod, 40, 200),
}
