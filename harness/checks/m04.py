import numpy as np
import common
from mon import snapshot, global_rng_state

PROPERTY = "M04"
RULE = ("random multi-band multi-epoch observations x transition scales x "
        "image shapes from 1x1 up, including images entirely inside the "
        "transition; non-trivial when some pixel lies in the transition; "
        "distinct by (bands, epochs, mfrac?, shape class, all masked?, scale)")
REQUIRED = ["pixels_apodized", "pixels_untouched", "all_masked_cases",
            "no_mfrac_cases", "multi_epoch_cases", "weightless_inside",
            "weightless_border"]
ASSUMPTIONS = [
    "observation container semantics are those of the ngmix stand-in",
]


def fam_edge(ctx, rng, i):
    from metadetect import masking
    ap = float(rng.choice([0.05, 0.3, 0.5, 1.0, 1.5, 2.0, 4.0]))
    k = rng.randint(5)
    if k == 0:
        dims = (int(rng.randint(1, 12)), int(rng.randint(1, 12)))
    elif k == 1:
        n = max(1, 2*int(6*ap+0.5) + rng.randint(-2, 3))
        dims = (int(n), int(max(1, n + rng.randint(-1, 2))))
    elif k == 2:
        n = int(rng.randint(13, 50))
        dims = (n, n)
    else:
        dims = (int(rng.randint(5, 60)), int(rng.randint(5, 60)))
    nband = int(rng.randint(1, 5))
    nep = 2 if rng.uniform() < 0.3 else 1
    if rng.uniform() < 0.06:
        # every band and every epoch, however many
        nband, nep = [(int(rng.randint(5, 9)), 1),
                      (1, int(rng.randint(3, 8)))][rng.randint(2)]
    elif rng.uniform() < 0.03:
        dims = (int(rng.randint(100, 310)), int(rng.randint(60, 310)))
    bit = int(2**rng.randint(0, 31))
    mb = common.make_mbobs(rng, dims, nband, nepoch=nep)
    if rng.uniform() < 0.1:
        # weight only in the transition
        o = mb[rng.randint(nband)][0]
        z = common.ref_edge_window(dims, ap) >= 1
        if z.any() and (o.weight[~z] > 0).any():
            with o.writeable():
                o.weight[z] = 0
            ctx.count("weightless_inside")
    elif rng.uniform() < 0.2:
        # the border carries no weight to begin with, as in coadds
        for ol in mb:
            o = ol[rng.randint(len(ol))]
            z = common.ref_edge_window(dims, ap) < 1
            if (o.weight[~z] > 0).any():
                with o.writeable():
                    o.weight[z] = 0
                ctx.count("weightless_border")
    before = common.mb_planes(mb)
    ignored = common.mb_ignore(mb)
    jacs = [[repr(o.jacobian) for o in ol] for ol in mb]
    ctx.describe(dims=dims, ap=ap, nband=nband, nep=nep, bit=bit)
    g0 = global_rng_state()
    masking.apply_apodization_corrections(
        mbobs=mb, ap_rad=ap, mask_bit_val=bit)
    ctx.check(g0 == global_rng_state(), "global-rng-consumed")
    win = common.ref_edge_window(dims, ap)
    t = win < 1 - 1e-12
    # the profile ends r pixels from the border; whether its value there
    # rounds to one, and so whether these pixels count as apodized, is open
    r = int(6*ap+0.5)
    ir, ic = np.indices(dims)
    dist = np.stack([ir, ic, dims[0]-1-ir, dims[1]-1-ic])
    rim = ~t & np.any(dist == r, axis=0)
    if np.any((win != 1) & ~t & ~rim):
        ctx.count("rounding_skipped")
        return
    inside = ~t & ~rim
    for b, ol in enumerate(mb):
        for e, obs in enumerate(ol):
            old = before[b][e]
            new = common.planes(obs)
            w = dict(band=b, epoch=e)
            ctx.equal(sorted(new), sorted(old), "planes-present", **w)
            common.check_pixels(ctx, obs, ignored[b][e], **w)
            ctx.check(repr(obs.jacobian) == jacs[b][e], "jacobian-changed",
                      **w)
            ctx.equal(new["ormask"], old["ormask"], "ormask-changed", **w)
            for name in ("image", "noise"):
                ctx.close(new[name], old[name]*win, name+"-windowed",
                          rtol=1e-9, atol=1e-9, **w)
                ctx.equal(new[name][inside], old[name][inside],
                          name+"-interior", **w)
                ctx.close(new[name][rim], old[name][rim], name+"-rim",
                          rtol=1e-12, **w)
            ctx.check(np.all(new["weight"][t] == 0), "weight-in-edge", **w)
            hit = rim & (new["weight"] == 0) & (old["weight"] > 0)
            keep = ~t & ~hit
            ctx.equal(new["weight"][keep], old["weight"][keep],
                      "weight-interior", **w)
            if "mfrac" in old:
                ctx.check(np.all(new["mfrac"][t] == 1), "mfrac-in-edge", **w)
                ctx.check(np.all(new["mfrac"][hit] == 1), "mfrac-in-edge",
                          **w)
                ctx.equal(new["mfrac"][inside], old["mfrac"][inside],
                          "mfrac-interior", **w)
            else:
                ctx.count("no_mfrac_cases")
            want = old["bmask"].astype('i8') | np.where(t | hit, bit, 0)
            sure = t | hit | inside | (rim & (old["weight"] > 0))
            ctx.equal(new["bmask"].astype('i8')[sure], want[sure],
                      "bit-mask", **w)
            ctx.equal(new["bmask"].astype('i8') & ~bit,
                      old["bmask"].astype('i8') & ~bit,
                      "other-bits", **w)
    ctx.count("pixels_apodized", t.sum())
    ctx.count("pixels_untouched", (~t).sum())
    if t.all():
        ctx.count("all_masked_cases")
    if nep > 1:
        ctx.count("multi_epoch_cases")
    if t.any():
        ctx.nontrivial(nband, nep, "mfrac" in before[0][0], dims[0] == dims[1],
                       bool(t.all()), ap, bit)
        ctx.sample(ctx.info)


FAMILIES = {"edge": (fam_edge, 1500, 25000)}
