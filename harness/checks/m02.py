import numpy as np
import ngmix
import common
from mon import snapshot
from checks.m01 import shape

PROPERTY = "M02"
RULE = ("hole lists as for M01 x transition scales 0.05..8 px x image shapes, "
        "and edge windows on images from 1x1 to 60x60 including images "
        "smaller than the transition; non-trivial when some window value is "
        "strictly between 0 and 1; distinct by (family, hole kind, shape "
        "class, scale octave, symmetrize)")
REQUIRED = ["transition_pixels", "unit_pixels", "zero_pixels",
            "edge_transition_pixels", "overlapping_edge_cases"]
ASSUMPTIONS = ["window values are compared to 1e-10 absolute"]


def warmup():
    from metadetect import masking
    z = np.ones(1)
    masking.make_foreground_apodization_mask(
        xm=z, ym=z, rm=z, dims=(4, 4), symmetrize=True, ap_rad=1.0)
    fam_edge_run((4, 4), 1.0)


def gen_ap(rng):
    return float(rng.choice([
        0.05, 0.2, 0.5, 1.0, 1.5, 2.0, 3.0, 8.0, rng.uniform(0.1, 4),
        # the range in pixels is int(6*ap_rad+0.5): exactly representable
        # ties of the rounding
        0.25, 0.75, 1.25, 1.75]))


def fam_holes(ctx, rng, i):
    from metadetect import masking
    sym = rng.uniform() < 0.4
    dims = shape(rng, square=sym)
    ap = gen_ap(rng)
    xm, ym, rm, kind = common.gen_holes(rng, dims, nmax=6)
    ax, xm = common.recast(rng, xm)
    ay, ym = common.recast(rng, ym)
    ar, rm = common.recast(rng, rm)
    ctx.describe(dims=dims, kind=kind, xm=xm, ym=ym, rm=rm, sym=sym, ap=ap)
    before = [snapshot(v) for v in (ax, ay, ar)]
    got = masking.make_foreground_apodization_mask(
        xm=ax, ym=ay, rm=ar, dims=dims, symmetrize=bool(sym), ap_rad=ap)
    ctx.require(got.shape == tuple(dims), "window-shape")
    for b, v, n in zip(before, (ax, ay, ar), "xyr"):
        ctx.unchanged(b, v, "hole-list-modified", which=n)
    want = common.ref_hole_window(xm, ym, rm, dims, ap)
    inside, undec = common.ref_hole_mask(xm, ym, rm, dims)
    if sym:
        want = want*np.rot90(want)
        inside = inside | np.rot90(inside)
        undec = undec | np.rot90(undec)
    ctx.close(got, want, "hole-window-values", atol=1e-10)
    ctx.check(np.all((got >= -1e-12) & (got <= 1+1e-12)), "window-range")
    out = ~inside & ~undec
    ctx.check(np.all(got[out] == 1), "window-not-one-outside")
    ctx.count("unit_pixels", out.sum())
    ctx.count("zero_pixels", (want == 0).sum())
    tr = (want > 0) & (want < 1)
    ctx.count("transition_pixels", tr.sum())
    if tr.any():
        ctx.nontrivial(kind, sym, min(dims) == 1, dims[0] == dims[1],
                       int(np.log2(ap)))
        ctx.sample(ctx.info)


def fam_edge_run(dims, ap, dtype='f8'):
    from metadetect import masking
    obs = ngmix.Observation(
        np.full(dims, 2.0), weight=np.ones(dims), noise=np.full(dims, 4.0),
        bmask=np.zeros(dims, dtype='i4'), ormask=np.zeros(dims, dtype='i4'),
        jacobian=ngmix.DiagonalJacobian(row=0, col=0))
    ol = ngmix.ObsList()
    ol.append(obs)
    mb = ngmix.MultiBandObsList()
    mb.append(ol)
    masking.apply_apodization_corrections(
        mbobs=mb, ap_rad=ap, mask_bit_val=4)
    return mb[0][0].image/2.0, mb[0][0].noise/4.0


def fam_edge(ctx, rng, i):
    """the edge window, read off flat images"""
    ap = gen_ap(rng)
    dims = shape(rng)
    if rng.uniform() < 0.4:
        r = int(6*ap+0.5)
        n = max(1, r + rng.randint(-2, 4))
        dims = (int(min(n, 60)), int(min(max(1, n + rng.randint(-2, 3)), 60)))
    ctx.describe(dims=dims, ap=ap)
    wi, wn = fam_edge_run(dims, ap)
    want = common.ref_edge_window(dims, ap)
    ctx.close(wi, want, "edge-window-image", atol=1e-10)
    ctx.close(wn, want, "edge-window-noise", atol=1e-10)
    ctx.close(wi, wi[::-1], "edge-window-not-symmetric-rows", atol=1e-12)
    ctx.close(wi, wi[:, ::-1], "edge-window-not-symmetric-cols", atol=1e-12)
    r = int(6*ap+0.5)
    inner = np.zeros(dims, dtype=bool)
    inner[r:max(r, dims[0]-r), r:max(r, dims[1]-r)] = True
    # the profile ends at r, where the polynomial may round to one or not
    ctx.check(np.all(np.abs(wi[inner] - 1) < 1e-12),
              "edge-window-not-one-inside")
    inner[:] = False
    inner[r+1:max(r+1, dims[0]-r-1), r+1:max(r+1, dims[1]-r-1)] = True
    ctx.check(np.all(wi[inner] == 1), "edge-window-not-one-inside")
    tr = (want > 0) & (want < 1)
    ctx.count("edge_transition_pixels", tr.sum())
    if 2*r >= min(dims):
        ctx.count("overlapping_edge_cases")
    if tr.any():
        ctx.nontrivial("edge", dims[0] == dims[1], min(dims) <= 2*r,
                       int(np.log2(ap)), min(dims) == 1)


FAMILIES = {
    "holes": (fam_holes, 1500, 30000),
    "edge": (fam_edge, 1000, 15000),
}
