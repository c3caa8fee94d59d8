import numpy as np
import common
import lsim
from mon import snapshot

PROPERTY = "L02"
RULE = ("multi-band exposures (offset and rotated world systems, 1-4 bands, "
        "float and double, random mask planes and bit assignments, optional "
        "noise, masked-fraction and or-mask inputs) x bright-object lists "
        "(inside, on the border, outside, none, duplicated) and edge masks, "
        "once and repeatedly; non-trivial when some pixel is in the "
        "transition; distinct by (family, bands, options, hole kind, shape "
        "class)")
REQUIRED = ["affected_pixels", "unaffected_pixels", "expanded_only_pixels",
            "edge_pixels", "noise_checked", "mfrac_checked",
            "ormask_checked", "offset_cases", "no_holes_cases"]
ASSUMPTIONS = [
    "pixels within 1e-6 px of a hole's rim, or where the window is one to "
    "1e-6, may go either way (the rim goes through the world transform)"]


def warmup():
    from metadetect import masking
    z = np.ones(1)
    masking.make_foreground_apodization_mask(
        xm=z, ym=z, rm=z, dims=(4, 4), symmetrize=False, ap_rad=1.0)
    masking.make_foreground_bmask(
        xm=z, ym=z, rm=z, dims=(4, 4), symmetrize=False, mask_bit_val=1)
    m = np.ones((4, 4), dtype='f4')
    build = getattr(masking, "_build_square_apodization_mask", None)
    if build is not None:
        build(1.5, m)


def build(ctx, rng, small=False):
    lsim.new_planes(rng)
    box = lsim.random_box(rng, 4 if small else 20, 60)
    if box.getBeginX() != 0:
        ctx.count("offset_cases")
    cx, cy = lsim.box_center(box)
    wcs, scale = lsim.make_wcs(rng, (cx, cy))
    bands = lsim.bands_of(rng, 1, 4 if rng.uniform() < .9 else 6)

    def one(noise):
        dt = 'f8' if rng.uniform() < 0.3 else 'f4'
        return lsim.multi([
            lsim.make_exposure(rng, box, wcs, lsim.make_psf(
                rng, scale, dim=11, varying=False), b, noise=noise, dtype=dt)
            for b in bands])
    data = dict(mbexp=one(1.0))
    if rng.uniform() < 0.7:
        data['noise_mbexp'] = one(2.0)
    if rng.uniform() < 0.6:
        mf = one(1.0)
        for e in mf.singles:
            e.image.array[:, :] = rng.uniform(size=e.image.array.shape)
        data['mfrac_mbexp'] = mf
    if rng.uniform() < 0.6:
        dt = str(rng.choice(['i4', 'i4', 'i8']))
        data['ormasks'] = [
            rng.randint(0, 2**12, size=data['mbexp'].singles[0].image.array
                        .shape).astype(dt) for _ in bands]
    return box, wcs, bands, data


def save(data):
    out = {}
    for k, v in data.items():
        if k == 'ormasks':
            out[k] = [m.copy() for m in v]
        else:
            out[k] = [lsim.planes(e) for e in v.singles]
            out[k + "#"] = [(id(e.getPsf()), id(e.getWcs()),
                             repr(e.getFilter())) for e in v.singles]
    return out


def compare(ctx, before, data, hit, win, bit, undec, extra=None, ebit=0,
            what=""):
    """hit: affected pixels; extra: pixels of the expanded plane"""
    sure = ~undec
    band0 = data['mbexp'].singles[0].image.array.dtype
    for k in ('mbexp', 'noise_mbexp'):
        if k not in data:
            continue
        if k == 'noise_mbexp':
            ctx.count("noise_checked")
        for b, e in enumerate(data[k].singles):
            im0, va0, mk0 = before[k][b]
            im, va, mk = lsim.planes(e)
            f4 = np.float32 in (im.dtype, band0)
            tol = 2e-6 if f4 else 1e-9
            h = hit & sure
            o = ~hit & sure
            ctx.close(im[h], im0[h].astype('f8')*win[h], what + "image-window",
                      rtol=2*tol, atol=tol, plane=k, band=b)
            ctx.equal(im[o], im0[o], what + "image-changed-outside", plane=k,
                      band=b)
            ctx.check(np.all(np.isposinf(va[h])), what + "variance-not-inf",
                      plane=k, band=b)
            ctx.equal(va[o], va0[o], what + "variance-changed-outside",
                      plane=k, band=b)
            want = mk0.copy()
            want[hit] |= bit
            s = sure
            if extra is not None:
                want[extra[0]] |= ebit
                s = sure & ~extra[1]
            ctx.equal(mk[s], want[s], what + "mask-plane", plane=k, band=b)
    if 'mfrac_mbexp' in data:
        ctx.count("mfrac_checked")
        for b, e in enumerate(data['mfrac_mbexp'].singles):
            im0, va0, mk0 = before['mfrac_mbexp'][b]
            im, va, mk = lsim.planes(e)
            ctx.check(np.all(im[hit & sure] == 1), what + "mfrac-not-one",
                      band=b)
            ctx.equal(im[~hit & sure], im0[~hit & sure],
                      what + "mfrac-changed-outside", band=b)
    if 'ormasks' in data:
        ctx.count("ormask_checked")
        for b, m in enumerate(data['ormasks']):
            want = before['ormasks'][b].copy()
            want[hit] |= bit
            s = sure
            if extra is not None:
                want[extra[0]] |= ebit
                s = sure & ~extra[1]
            ctx.equal(m[s], want[s], what + "ormask", band=b)
            ctx.check(m.dtype == before['ormasks'][b].dtype,
                      what + "ormask-dtype")
    after = save(data)
    for k in before:
        if k.endswith("#"):
            ctx.check(before[k] == after[k], what + "components-changed",
                      which=k)


def rim(xm, ym, rm, dims, win):
    """pixels at the outer end of the transition, where the window is one up
    to rounding"""
    wider = common.ref_hole_window(xm, ym, np.where(rm > 0, rm + 0.05, rm),
                                   dims, lsim.AP_RAD)
    touched = np.zeros(dims, dtype=bool)
    rows, cols = np.mgrid[0:dims[0], 0:dims[1]]
    for x, y, r in zip(xm, ym, rm):
        if r > 0:
            touched |= np.sqrt((rows - y)**2 + (cols - x)**2) < r + 1e-6
    return touched & (win > 1 - 1e-6) & (wider > 1 - 1e-3)


def edge_rim(win):
    """pixels where the window is one up to rounding: the end of the
    profile, where it may round to one or to just below it"""
    dims = win.shape
    r = int(6*lsim.AP_RAD + 0.5)
    ir, ic = np.indices(dims)
    dist = np.stack([ir, ic, dims[0]-1-ir, dims[1]-1-ic])
    end = np.any(dist == r, axis=0)
    return (win > 1 - 1e-6) & (end | (win < 1))


def fam_bright(ctx, rng, i):
    from metadetect.lsst.masking import apply_apodized_bright_masks_mbexp
    from lsst.afw.image import Mask
    box, wcs, bands, data = build(ctx, rng)
    dims = (box.getHeight(), box.getWidth())
    xm, ym, rm, kind = common.gen_holes(rng, dims, nmax=5)
    xm, ym, rm = [np.array(v, dtype='f8') for v in (xm, ym, rm)]
    rm = np.where(np.isfinite(rm), rm, 1.0)
    far = (np.abs(xm) > 1e5) | (np.abs(ym) > 1e5)
    xm, ym, rm = xm[~far], ym[~far], rm[~far]
    ctx.describe(dims=dims, bands=bands, kind=kind, xm=xm, ym=ym, rm=rm,
                 options=sorted(data), box=repr(box))
    ra, dec = wcs.pixelToSkyArray(
        xm + box.getBeginX(), ym + box.getBeginY(), degrees=True)
    info = np.zeros(xm.size, dtype=[
        ('ra', 'f8'), ('dec', 'f8'), ('radius_pixels', 'f8'),
        ('extra', 'i4')])
    info['ra'], info['dec'], info['radius_pixels'] = ra, dec, rm
    isnap = snapshot(info)
    win = common.ref_hole_window(xm, ym, rm, dims, lsim.AP_RAD)
    # pixels whose membership depends on rounding in the transform
    hit = win < 1
    hi = common.ref_hole_window(xm, ym, rm + 1e-6, dims, lsim.AP_RAD)
    lo = common.ref_hole_window(xm, ym, rm - 1e-6, dims, lsim.AP_RAD)
    undec = rim(xm, ym, rm, dims, win) | (np.abs(hi - lo) > 1e-5)
    inside, und1 = common.ref_hole_mask(xm, ym, rm + lsim.EXPAND, dims)
    in1, _ = common.ref_hole_mask(xm, ym, rm + lsim.EXPAND - 1e-6, dims)
    in2, _ = common.ref_hole_mask(xm, ym, rm + lsim.EXPAND + 1e-6, dims)
    und_e = und1 | (in1 != in2)
    before = save(data)
    nrep = 1
    apply_apodized_bright_masks_mbexp(bright_info=info, **data)
    bit = Mask.getPlaneBitMask("BRIGHT")
    ebit = Mask.getPlaneBitMask("BRIGHT_EXPANDED")
    ctx.check(bit != ebit, "planes-share-a-bit")
    ctx.unchanged(isnap, info, "bright-info-modified")
    compare(ctx, before, data, hit, win, bit, undec, (inside, und_e), ebit,
            "bright-")
    ctx.count("affected_pixels", hit.sum())
    ctx.count("unaffected_pixels", (~hit).sum())
    ctx.count("expanded_only_pixels", (inside & ~hit).sum())
    if xm.size == 0:
        ctx.count("no_holes_cases")
    if ((win > 0) & (win < 1)).any():
        ctx.nontrivial(kind, len(bands), "".join(k[0] for k in sorted(data)),
                       dims[0] == dims[1], nrep)
        ctx.sample(ctx.info)


def fam_edge(ctx, rng, i):
    from metadetect.lsst.masking import apply_apodized_edge_masks_mbexp
    from lsst.afw.image import Mask
    box, wcs, bands, data = build(ctx, rng, small=rng.uniform() < 0.5)
    dims = (box.getHeight(), box.getWidth())
    ctx.describe(dims=dims, bands=bands, options=sorted(data))
    win = common.ref_edge_window(dims, lsim.AP_RAD)
    dt = data['mbexp'].singles[0].image.array.dtype
    hit = win.astype(dt) < 1
    undec = edge_rim(win)
    before = save(data)
    apply_apodized_edge_masks_mbexp(**data)
    bit = Mask.getPlaneBitMask("APODIZED_EDGE")
    compare(ctx, before, data, hit, win, bit, undec, what="edge-")
    ctx.count("edge_pixels", hit.sum())
    if ((win > 0) & (win < 1)).any():
        ctx.nontrivial("edge", len(bands),
                       "".join(k[0] for k in sorted(data)),
                       min(dims) < 18)


def fam_both(ctx, rng, i):
    """edge and bright masking compose, in either order"""
    from metadetect.lsst import masking
    from lsst.afw.image import Mask
    box, wcs, bands, data = build(ctx, rng)
    dims = (box.getHeight(), box.getWidth())
    n = int(rng.randint(1, 4))
    xm = rng.uniform(-3, dims[1] + 3, size=n)
    ym = rng.uniform(-3, dims[0] + 3, size=n)
    rm = rng.uniform(0.5, 8, size=n)
    info = np.zeros(n, dtype=[('ra', 'f8'), ('dec', 'f8'),
                              ('radius_pixels', 'f8')])
    info['ra'], info['dec'] = wcs.pixelToSkyArray(
        xm + box.getBeginX(), ym + box.getBeginY(), degrees=True)
    info['radius_pixels'] = rm
    first = str(rng.choice(['edge', 'bright']))
    ctx.describe(dims=dims, bands=bands, n=n, first=first)
    before = save(data)
    for k in ((first, 'edge') if first == 'bright' else (first, 'bright')):
        if k == 'edge':
            masking.apply_apodized_edge_masks_mbexp(**data)
        else:
            masking.apply_apodized_bright_masks_mbexp(
                bright_info=info, **data)
    we = common.ref_edge_window(dims, lsim.AP_RAD)
    wb = common.ref_hole_window(xm, ym, rm, dims, lsim.AP_RAD)
    hi = common.ref_hole_window(xm, ym, rm + 1e-6, dims, lsim.AP_RAD)
    lo = common.ref_hole_window(xm, ym, rm - 1e-6, dims, lsim.AP_RAD)
    und = (rim(xm, ym, rm, dims, wb) | (np.abs(hi - lo) > 1e-5)
           | edge_rim(we))
    for k in ('mbexp', 'noise_mbexp'):
        if k not in data:
            continue
        for b, e in enumerate(data[k].singles):
            im0, va0, mk0 = before[k][b]
            s = ~und
            ctx.close(e.image.array[s], (im0*we*wb)[s], "composed-window",
                      rtol=1e-5, atol=1e-5, plane=k)
            bb = Mask.getPlaneBitMask("BRIGHT")
            be = Mask.getPlaneBitMask("APODIZED_EDGE")
            ex = Mask.getPlaneBitMask("BRIGHT_EXPANDED")
            want = mk0.copy()
            want[we < 1] |= be
            want[wb < 1] |= bb
            ctx.equal(e.mask.array[s] & ~ex, want[s] & ~ex,
                      "composed-planes", plane=k)
    ctx.nontrivial("both", first, len(bands))


FAMILIES = {
    "bright": (fam_bright, 500, 15000),
    "edge": (fam_edge, 250, 6000),
    "both": (fam_both, 150, 5000),
}
