import contextlib
import numpy as np
import ngmix
import common
from scipy.spatial import cKDTree
from mon import snapshot

PROPERTY = "D01"
RULE = ("position/size catalogues (inside, on every border, half a box and "
        "more off the image, fractional, integer) x stamp sizes (1..larger "
        "than the image) x multi-band images with per-pixel unique values x "
        "weight types; every stamp plane is one event; non-trivial when the "
        "stamp is clipped by a border or off centre; distinct by (position "
        "class, size parity, larger-than-image, weight type, path)")
REQUIRED = ["stamps", "clipped_low", "clipped_high", "padded_pixels",
            "uberseg_stamps", "off_image_stamps", "detected_stamps",
            "bad_type_refused"]
ASSUMPTIONS = [
    "MEDS cutout access and uberseg semantics are those of the meds and ngmix "
    "stand-ins",
]
EDGE = 2**30


def unique_mbobs(rng, dims, nband, kind="unique"):
    jac = common.make_jacobian(rng, dims)
    mb = common.make_mbobs(rng, dims, nband, jac=jac, psf=True,
                           weight_kind="varying")
    for b, ol in enumerate(mb):
        for o in ol:
            with o.writeable():
                n = o.image.size
                o.image[:, :] = (np.arange(n).reshape(dims) + 1
                                 + b*1e7)
                o.noise[:, :] = -(np.arange(n).reshape(dims) + 1 + b*1e7)
                o.bmask[:, :] = rng.randint(0, 2**20, size=dims)
    return mb


def gen_positions(rng, dims, n, half):
    ny, nx = dims

    def one(nn):
        k = rng.randint(9)
        if k == 0:
            return rng.uniform(0, nn-1)
        if k == 1:
            return float(rng.randint(0, nn))
        if k == 2:
            return rng.uniform(-0.49, 3)
        if k == 3:
            return rng.uniform(nn-3, nn-0.51)
        if k == 4:
            return float(rng.choice([0, nn-1]))
        if k == 5:
            return rng.choice([half-1, half, half+1, half-0.5]) + 0.0
        if k == 6:
            return nn - rng.choice([half-1, half, half+1, half-0.5]) + 0.0
        if k == 7:
            # off the image
            return rng.choice([-1, 1])*rng.uniform(0, 6) + \
                (0 if rng.uniform() < 0.5 else nn-1)
        return rng.uniform(-2*half - 3, nn + 2*half + 3)
    y = np.array([one(ny) for _ in range(n)])
    x = np.array([one(nx) for _ in range(n)])
    return x, y


def check_stamp(ctx, mb, m, cat, i, b, seg, wt_type="weight", path="cat"):
    """one object in one band: the stamp planes and its geometry"""
    dims = mb[b][0].image.shape
    bs = int(cat['box_size'][i])
    y = np.float32(cat['orig_row'][i, 0])
    x = np.float32(cat['orig_col'][i, 0])
    sr = int(cat['orig_start_row'][i, 0])
    sc = int(cat['orig_start_col'][i, 0])
    w = dict(i=i, band=b, bs=bs, x=float(x), y=float(y), start=[sr, sc],
             dims=dims, path=path)
    src = dict(image=mb[b][0].image, weight=mb[b][0].weight,
               bmask=mb[b][0].bmask, noise=mb[b][0].noise, seg=seg)
    fill = dict(image=0, weight=0, bmask=EDGE, noise=0, seg=0)
    rr = np.arange(bs) + sr
    cc = np.arange(bs) + sc
    rin = (rr >= 0) & (rr < dims[0])
    cin = (cc >= 0) & (cc < dims[1])
    inside = np.outer(rin, cin)
    want = {}
    for t in src:
        got = m.get_cutout(i, 0, type=t)
        ctx.require(got.shape == (bs, bs), "stamp-shape/" + t,
                    got=got.shape, **w)
        ctx.check(got.dtype == src[t].dtype, "stamp-dtype/" + t,
                  got=got.dtype, **w)
        exp = np.full((bs, bs), fill[t], dtype=src[t].dtype)
        if inside.any():
            exp[np.ix_(rin, cin)] = src[t][np.ix_(rr[rin], cc[cin])]
        ctx.equal(got, exp, "stamp-content/" + t, **w)
        want[t] = exp
        # a stamp is a copy
        before = snapshot(np.array(src[t]))
        got[...] = 1
        ctx.unchanged(before, np.array(src[t]), "stamp-aliases-image/" + t)
        # and the next one is cut anew
        ctx.equal(m.get_cutout(i, 0, type=t), exp, "stamp-not-fresh/" + t,
                  **w)
        ctx.count("stamps")
    ctx.count("padded_pixels", (~inside).sum())

    # geometry: the stamp origin and the recorded position agree
    cr = float(cat['cutout_row'][i, 0])
    ct = float(cat['cutout_col'][i, 0])
    ctx.close(cr + sr, float(y), "stamp-position-row", rtol=1e-6, atol=2e-3,
              **w)
    ctx.close(ct + sc, float(x), "stamp-position-col", rtol=1e-6, atol=2e-3,
              **w)
    cen = (bs - 1)/2
    slack = 0.5 + 1e-3 if bs % 2 == 0 else 1.0 + 1e-3
    for name, pos, start, c, dim in (
        ("row", float(y), sr, cr, dims[0]), ("col", float(x), sc, ct, dims[1])
    ):
        if pos >= 0 and start > 0:
            ctx.check(abs(c - cen) <= slack, "stamp-not-centred-" + name,
                      offset=c-cen, **w)
        ctx.check(start >= 0, "stamp-start-negative-" + name, **w)
        if start == 0 and pos >= 0:
            # clipped at the low border: no more than needed
            ctx.check(c <= cen + slack, "stamp-clipped-wrongly-" + name,
                      offset=c-cen, **w)
            if c < cen - slack:
                ctx.count("clipped_low")
        if start + bs > dim:
            ctx.count("clipped_high")
        if 0 <= pos <= dim - 1:
            ctx.check(0 <= c < bs, "object-outside-its-stamp-" + name, **w)
        else:
            ctx.count("off_image_stamps")
    # the recorded end of the box is where the data ends
    for name, dim in (("row", dims[0]), ("col", dims[1])):
        s = int(cat['orig_start_%s' % name][i, 0])
        e = int(cat['orig_end_%s' % name][i, 0])
        ctx.check(e <= dim, "stamp-end-beyond-image-" + name, end=e, **w)
        pos = float(cat['orig_row' if name == 'row' else 'orig_col'][i, 0])
        if pos >= 0 and s > 0 and bs % 2 == 0 and s <= dim:
            ctx.check(e == min(s + bs, dim), "stamp-end-" + name, end=e, **w)
    return want, inside


def check_obs(ctx, mb, obs, cat, i, b, want, inside, seg, wt_type):
    dims = mb[b][0].image.shape
    w = dict(i=i, band=b, wt_type=wt_type, dims=dims)
    ctx.equal(obs.image, want['image'], "obs-image", **w)
    ctx.equal(obs.bmask, want['bmask'], "obs-bmask", **w)
    ctx.equal(obs.noise, want['noise'], "obs-noise", **w)
    jac = mb[b][0].jacobian
    j = obs.jacobian
    for a in ('dudrow', 'dudcol', 'dvdrow', 'dvdcol'):
        ctx.close(getattr(j, a), getattr(jac, a), "obs-jacobian-" + a,
                  rtol=1e-12, atol=1e-14, **w)
    row0, col0 = j.get_cen()
    ctx.close(row0 + cat['orig_start_row'][i, 0], cat['orig_row'][i, 0],
              "obs-jacobian-row0", rtol=1e-6, atol=2e-3, **w)
    ctx.close(col0 + cat['orig_start_col'][i, 0], cat['orig_col'][i, 0],
              "obs-jacobian-col0", rtol=1e-6, atol=2e-3, **w)
    pim = mb[b][0].psf.image
    ctx.equal(obs.psf.image, pim, "obs-psf-image", **w)
    pj = obs.psf.jacobian
    prow, pcol = pj.get_cen()
    ctx.close([prow, pcol], (np.array(pim.shape)-1)/2, "obs-psf-centre", **w)
    for a in ('dudrow', 'dudcol', 'dvdrow', 'dvdcol'):
        ctx.close(getattr(pj, a), getattr(jac, a), "obs-psf-jacobian-" + a,
                  rtol=1e-12, atol=1e-14, **w)
    if wt_type == "weight":
        ctx.equal(obs.weight, want['weight'], "obs-weight", **w)
    else:
        num = int(cat['number'][i])
        sg = want['seg']
        full = want['weight']
        others = (sg != 0) & (sg != num)
        if not others.any():
            ctx.equal(obs.weight, full, "obs-uberseg-alone", **w)
        else:
            pts = np.argwhere(sg != 0)
            own = np.argwhere(sg == num)
            oth = np.argwhere(others)
            allp = np.argwhere(np.ones(sg.shape, bool))
            dother = cKDTree(oth).query(allp)[0].reshape(sg.shape)
            down = (cKDTree(own).query(allp)[0].reshape(sg.shape)
                    if own.size else np.full(sg.shape, np.inf))
            mine = down < dother - 1e-9
            theirs = dother < down - 1e-9
            ctx.equal(obs.weight[mine], full[mine], "obs-uberseg-own", **w)
            ctx.check(np.all(obs.weight[theirs] == 0), "obs-uberseg-other",
                      **w)
            ctx.check(pts.size > 0, "x")
        ctx.count("uberseg_stamps")


def classify(cat, i, dims):
    out = []
    for n, dim in (("row", dims[0]), ("col", dims[1])):
        p = float(cat['orig_' + n][i, 0])
        s = int(cat['orig_start_' + n][i, 0])
        bs = int(cat['box_size'][i])
        out.append("off" if p < -0.5 or p > dim-0.5 else
                   "low" if s == 0 else
                   "high" if s + bs > dim else "in")
    return tuple(out)


def fam_catalog(ctx, rng, i):
    """stamps at caller-given positions and sizes"""
    from metadetect.detect import CatalogMEDSifier
    dims = (int(rng.randint(6, 45)), int(rng.randint(6, 45)))
    nband = int(rng.randint(1, 4)) if rng.uniform() < 0.96 else 7
    mb = unique_mbobs(rng, dims, nband)
    n = int(rng.randint(1, 7))
    if rng.uniform() < 0.02:
        n = int(rng.randint(40, 120))
    elif rng.uniform() < 0.02:
        dims = (int(rng.randint(120, 300)), int(rng.randint(120, 300)))
        mb = unique_mbobs(rng, dims, nband)
    sizes = rng.choice([2, 3, 4, 6, 8, 12, 16, 24, 32, 64], size=n)
    x, y = gen_positions(rng, dims, n, int(sizes[0])//2)
    ctx.describe(dims=dims, nband=nband, x=x, y=y, sizes=sizes)
    use_seg = rng.uniform() < 0.5
    seg = None
    kw = {}
    if use_seg:
        seg = np.zeros(dims, dtype='i4')
        for k in range(n + 3):
            r, c = rng.randint(dims[0]), rng.randint(dims[1])
            seg[r:r+3, c:c+3] = k+1
        number = rng.permutation(n + 3)[:n] + 1
        kw = dict(seg=seg, number=number)
    snaps = [snapshot(mb), snapshot(x), snapshot(y), snapshot(sizes)]
    md = CatalogMEDSifier(mb, x, y, sizes, **kw)
    mbm = md.get_multiband_meds()
    cat = md.cat
    ctx.equal(len(mbm.mlist), nband, "bands-lost")
    ctx.equal(mbm.size, n, "objects-lost")
    ctx.equal(cat['box_size'], sizes, "box-size-not-honoured")
    ctx.close(cat['orig_row'][:, 0], y, "row-not-honoured", rtol=1e-6,
              atol=1e-5)
    ctx.close(cat['orig_col'][:, 0], x, "col-not-honoured", rtol=1e-6,
              atol=1e-5)
    if use_seg:
        ctx.equal(cat['number'], number, "number-not-honoured")
    segx = seg if seg is not None else np.zeros(dims, dtype='i4')
    wt_type = "uberseg" if use_seg and rng.uniform() < 0.7 else "weight"
    mbl = mbm.get_mbobs_list(weight_type=wt_type)
    ctx.equal(len(mbl), n, "objects-lost")
    for k in range(n):
        for b in range(nband):
            m = md.get_meds(b)
            want, inside = check_stamp(ctx, mb, m, cat, k, b, segx)
            ctx.require(len(mbl[k]) == nband, "bands-lost")
            ol = mbl[k][b]
            if wt_type == "weight" and not (want['weight'] > 0).any():
                ctx.check(len(ol) == 0, "weightless-stamp-kept")
            elif len(ol) == 1:
                check_obs(ctx, mb, ol[0], cat, k, b, want, inside, segx,
                          wt_type)
            else:
                ctx.check(wt_type == "uberseg", "stamp-observation-lost", k=k)
        cls = classify(cat, k, dims)
        if cls != ("in", "in"):
            ctx.nontrivial("cat", cls, int(sizes[k]) % 2,
                           sizes[k] > min(dims), wt_type)
    for s, v, nme in zip(snaps, (mb, x, y, sizes), ("mbobs", "x", "y", "sz")):
        ctx.unchanged(s, v, "input-modified/" + nme)
    if rng.uniform() < 0.2:
        m = md.get_meds(0)
        ctx.expect_raises(lambda: m.get_cutout(0, 0, type="blah"),
                          (ValueError, KeyError), "bad-type-accepted")
        ctx.expect_raises(lambda: m.get_cutout(n, 0), (ValueError, IndexError),
                          "bad-index-accepted")
        ctx.expect_raises(lambda: m.get_cutout(0, 1), (ValueError, IndexError),
                          "bad-cutout-accepted")
        ctx.count("bad_type_refused")
    ctx.sample(ctx.info)


@contextlib.contextmanager
def fake_sep(fn):
    import ngmix.log
    ngmix.log.faults['run_sep'] = fn
    try:
        yield
    finally:
        ngmix.log.faults.pop('run_sep', None)


def fake_catalog(rng, x, y):
    n = len(x)
    dt = [('x', 'f8'), ('y', 'f8'), ('xmin', 'i8'), ('xmax', 'i8'),
          ('ymin', 'i8'), ('ymax', 'i8'), ('a', 'f8'), ('b', 'f8'),
          ('theta', 'f8'), ('npix', 'i8'), ('flux', 'f8'),
          ('number', 'i4'), ('flux_auto', 'f8'), ('fluxerr_auto', 'f8'),
          ('flux_radius', 'f8'), ('flags_auto', 'i4'), ('kron_radius', 'f8'),
          ('isoarea_image', 'f4'), ('iso_radius', 'f4')]
    c = np.zeros(n, dtype=dt)
    c['x'], c['y'] = x, y
    hx = rng.randint(0, 30, size=n)
    hy = rng.randint(0, 30, size=n)
    c['xmin'], c['xmax'] = x - hx, x + hx
    c['ymin'], c['ymax'] = y - hy, y + hy
    c['a'] = rng.uniform(0.5, 10, size=n)
    c['b'] = c['a']*rng.uniform(0.1, 1, size=n)
    # edge-on discs, trails and diffraction spikes
    thin = rng.uniform(size=n) < 0.1
    c['b'][thin] = c['a'][thin]*10**rng.uniform(-4, -1, size=thin.sum())
    c['flux_radius'] = 10**rng.uniform(-1, 2, size=n)
    c['iso_radius'] = 10**rng.uniform(-1, 2.5, size=n)
    c['number'] = np.arange(1, n+1)
    return c


def fam_detect(ctx, rng, i):
    """stamps of detections: the extractor is replaced by a scripted one so
    that objects land on every border"""
    from metadetect.detect import MEDSifier
    dims = (int(rng.randint(8, 60)), int(rng.randint(8, 60)))
    nband = int(rng.randint(1, 4))
    mb = unique_mbobs(rng, dims, nband)
    n = int(rng.randint(0, 8))
    x, y = gen_positions(rng, dims, n, 8)
    x = np.clip(x, -0.5, dims[1]-0.5)
    y = np.clip(y, -0.5, dims[0]-0.5)
    fc = fake_catalog(rng, x, y)
    seg = np.zeros(dims, dtype='i4')
    for k in range(n):
        r, c = int(max(0, y[k])), int(max(0, x[k]))
        seg[max(0, r-1):r+2, max(0, c-1):c+2] = k+1
    conf = gen_meds_config(rng)
    ctx.describe(dims=dims, nband=nband, x=x, y=y, conf=conf)

    def run_sep(**kw):
        return fc.copy(), seg.copy()
    before = snapshot(mb)
    with fake_sep(run_sep):
        md = MEDSifier(mb, None, conf)
    cat = md.cat
    ctx.require(cat.size == n, "detections-lost", got=cat.size, want=n)
    for name in fc.dtype.names:
        ctx.equal(cat[name], fc[name], "detection-column-changed/" + name)
    ctx.equal(md.seg, seg, "segmentation-changed")
    jac = mb[0][0].jacobian
    if n > 0:
        ctx.close(cat['iso_radius_arcsec'],
                  fc['iso_radius']*np.sqrt(abs(
                      jac.dudrow*jac.dvdcol - jac.dudcol*jac.dvdrow)),
                  "iso-radius-arcsec", rtol=1e-5)
        ctx.close(cat['orig_row'][:, 0], y, "row-not-honoured", rtol=1e-6,
                  atol=1e-5)
        ctx.close(cat['orig_col'][:, 0], x, "col-not-honoured", rtol=1e-6,
                  atol=1e-5)
    wt_type = str(rng.choice(["weight", "uberseg"]))
    mbl = md.get_multiband_meds().get_mbobs_list(weight_type=wt_type)
    ctx.equal(len(mbl), n, "objects-lost")
    for k in range(n):
        for b in range(nband):
            m = md.get_meds(b)
            want, inside = check_stamp(ctx, mb, m, cat, k, b, seg,
                                       path="detect")
            ol = mbl[k][b]
            if len(ol) == 1:
                check_obs(ctx, mb, ol[0], cat, k, b, want, inside, seg,
                          wt_type)
            ctx.count("detected_stamps")
        cls = classify(cat, k, dims)
        if cls != ("in", "in"):
            ctx.nontrivial("det", cls, int(cat['box_size'][k]) % 2,
                           cat['box_size'][k] > min(dims), wt_type)
    ctx.unchanged(before, mb, "input-modified/mbobs")


def gen_meds_config(rng):
    mn = int(rng.choice([1, 2, 5, 16, 24, 32, 33, 48, 100]))
    mx = int(rng.choice([32, 33, 48, 64, 100, 256, 300, 1000]))
    if mx < mn:
        mn, mx = mx, mn
    conf = dict(min_box_size=mn, max_box_size=mx)
    if rng.uniform() < 0.5:
        conf.update(box_type='sigma_size', sigma_fac=float(rng.choice([1, 5])))
    else:
        conf.update(box_type='iso_radius', rad_min=float(rng.choice([0.5, 4])),
                    rad_fac=float(rng.choice([1, 2, 3.3])),
                    box_padding=int(rng.choice([0, 2, 5])))
    return conf


FAMILIES = {
    "catalog": (fam_catalog, 700, 12000),
    "detect": (fam_detect, 400, 6000),
}
