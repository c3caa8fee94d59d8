import numpy as np
import ngmix
import ngmix.log
import common
from mon import snapshot, global_rng_state
from checks.d01 import fake_sep, fake_catalog

PROPERTY = "D03"
RULE = ("random multi-band images, weights with holes, masks and no-detection "
        "bits; the arguments of the source extractor are the observed event "
        "and are compared with an independent inverse-variance coadd; a "
        "second family runs the real extractor on planted sources; distinct "
        "by (bands, masked?, zero-weight pixels?, no-detection bits, config "
        "kind)")
REQUIRED = ["extractor_calls", "masked_cases", "weight_hole_cases",
            "default_config_cases", "sources_found", "masked_sources"]
ASSUMPTIONS = [
    "sxdes is replaced by a stand-in over the real sep library with the same "
    "call signature",
]


def ref_detection(mb, nodet):
    wsum = 0.0
    acc = 0.0
    mask = np.zeros(mb[0][0].image.shape, dtype=bool)
    for ol in mb:
        o = ol[0]
        w = np.median(o.weight[o.weight > 0])
        acc = acc + o.image*w
        wsum += w
        if o.has_bmask():
            mask |= (o.bmask & nodet) != 0
    return acc/wsum, np.sqrt(1/wsum), mask


def gen_mb(rng, dims, nband):
    jac = common.make_jacobian(rng, dims)
    mb = common.make_mbobs(rng, dims, nband, jac=jac, psf=True)
    for ol in mb:
        for o in ol:
            with o.writeable():
                o.bmask[:, :] = np.where(
                    rng.uniform(size=dims) < 0.1,
                    2**rng.randint(0, 31, size=dims), 0)
            if rng.uniform() < 0.1:
                o.set_bmask(None)
    return mb


def bound(call_args, call_kw):
    names = ['image', 'noise', 'config', 'thresh', 'mask']
    out = dict(zip(names, call_args))
    out.update(call_kw)
    return out


def fam_args(ctx, rng, i):
    from metadetect.detect import MEDSifier
    import sxdes
    dims = (int(rng.randint(4, 40)), int(rng.randint(4, 40)))
    nband = int(rng.randint(1, 6))
    mb = gen_mb(rng, dims, nband)
    kind = str(rng.choice(["none", "conf", "conf"]))
    if kind == "none":
        sx = None
        ctx.count("default_config_cases")
    else:
        k = rng.uniform(size=(3, 3))
        sx = dict(
            detect_thresh=float(rng.uniform(0.5, 5)),
            deblend_cont=float(rng.uniform(1e-5, 1e-2)),
            deblend_nthresh=int(rng.choice([32, 64])),
            minarea=int(rng.randint(3, 9)), filter_type='conv',
            filter_kernel=k.tolist())
    nodet = int(rng.choice([0, 0, 1, 2**5, 2**30, 2**3 | 2**7]))
    if rng.uniform() < 0.3:
        nodet = int(rng.randint(0, 2**31 - 1))
    n = int(rng.randint(0, 4))
    fc = fake_catalog(rng, rng.uniform(0, dims[1]-1, size=n),
                      rng.uniform(0, dims[0]-1, size=n))
    calls = []

    def run_sep(*a, **kw):
        calls.append(bound(a, kw))
        return fc.copy(), np.zeros(dims, dtype='i4')
    before = snapshot(mb)
    sx_keep = snapshot(sx) if sx is not None else None
    conf = dict(box_type='iso_radius', rad_min=4, rad_fac=2, box_padding=2,
                min_box_size=32, max_box_size=64)
    ctx.describe(dims=dims, nband=nband, nodet=nodet, kind=kind)
    g0 = global_rng_state()
    with fake_sep(run_sep):
        kw = dict(nodet_flags=nodet) if nodet or rng.uniform() < 0.5 else {}
        MEDSifier(mb, sx, conf, **kw)
    ctx.check(g0 == global_rng_state(), "global-rng-consumed")
    ctx.unchanged(before, mb, "input-modified/mbobs")
    if sx is not None:
        ctx.unchanged(sx_keep, sx, "input-modified/config")
    ctx.require(len(calls) == 1, "extractor-calls", n=len(calls))
    ctx.count("extractor_calls")
    c = calls[0]
    im, noise, mask = ref_detection(mb, nodet)
    ctx.close(c['image'], im, "detection-image", rtol=1e-9, atol=1e-9)
    ctx.close(c['noise'], noise, "detection-noise", rtol=1e-9)
    gm = c.get('mask')
    gm = np.zeros(dims, bool) if gm is None else np.asarray(gm) != 0
    ctx.equal(gm, mask, "detection-mask", nodet=nodet)
    if kind == "none":
        ctx.close(c.get('thresh', sxdes.DETECT_THRESH), sxdes.DETECT_THRESH,
                  "default-threshold")
        cfg = c.get('config', sxdes.SX_CONFIG)
        ctx.check(snapshot(cfg) == snapshot(sxdes.SX_CONFIG),
                  "default-extractor-config")
    else:
        ctx.close(c['thresh'], sx['detect_thresh'], "threshold")
        cfg = dict(c['config'])
        ctx.check('detect_thresh' not in cfg, "threshold-passed-twice")
        ctx.equal(np.array(cfg.pop('filter_kernel')),
                  np.array(sx['filter_kernel']), "filter-kernel")
        want = {k: v for k, v in sx.items()
                if k not in ('detect_thresh', 'filter_kernel')}
        ctx.check(cfg == want, "extractor-config", got=cfg, want=want)
    holes = any(np.any(o.weight <= 0) for ol in mb for o in ol)
    if mask.any():
        ctx.count("masked_cases")
    if holes:
        ctx.count("weight_hole_cases")
    ctx.nontrivial(nband, mask.any(), holes, nodet, kind)
    ctx.sample(ctx.info)


def fam_sources(ctx, rng, i):
    """the real extractor: planted bright isolated sources are found where
    they are, once, except under no-detection pixels"""
    from metadetect.detect import MEDSifier
    nband = int(rng.randint(1, 4))
    ng = int(rng.randint(2, 4))
    step = 44
    dims = (ng*step + int(rng.randint(0, 9)), ng*step + int(rng.randint(0, 9)))
    jac = common.make_jacobian(rng, dims, kind="scaled")
    pts = []
    for r in range(ng):
        for c in range(ng):
            pts.append((step*(r+0.5) + rng.uniform(-3, 3),
                        step*(c+0.5) + rng.uniform(-3, 3)))
    masked = rng.uniform(size=len(pts)) < 0.25
    mb = ngmix.MultiBandObsList()
    which = rng.randint(nband, size=len(pts))
    for b in range(nband):
        sig = 10**rng.uniform(-1, 1)
        im = rng.normal(size=dims, scale=sig)
        bm = np.zeros(dims, dtype='i4')
        for k, (r, c) in enumerate(pts):
            # bright enough in one band to be bright in the coadd
            f = 3000*sig if which[k] == b else 300*sig
            im += common.gauss_image(dims, r, c, 2.2, flux=f*3)
            if masked[k] and b == k % nband:
                rr, cc = int(r), int(c)
                bm[rr-14:rr+15, cc-14:cc+15] = 2**9
        bm[rng.randint(dims[0]), rng.randint(dims[1])] |= 2**3
        obs = ngmix.Observation(
            im, weight=np.full(dims, 1/sig**2), bmask=bm,
            ormask=np.zeros(dims, dtype='i4'), noise=im*0, jacobian=jac,
            psf=ngmix.Observation(common.gauss_image((11, 11), 5, 5, 1.5),
                                  jacobian=jac))
        ol = ngmix.ObsList()
        ol.append(obs)
        mb.append(ol)
    conf = dict(box_type='iso_radius', rad_min=4, rad_fac=2, box_padding=2,
                min_box_size=32, max_box_size=64)
    ctx.describe(dims=dims, nband=nband, pts=pts, masked=masked)
    sx = None
    if rng.uniform() < 0.5:
        from sxdes import _K
        sx = dict(detect_thresh=3.0, deblend_cont=0.001, deblend_nthresh=32,
                  minarea=5, filter_type='conv', filter_kernel=_K)
    md = MEDSifier(mb, sx, conf, nodet_flags=2**9 | 2**11)
    x, y = md.cat['x'], md.cat['y']
    for k, (r, c) in enumerate(pts):
        d = np.hypot(y - r, x - c)
        near = (d < 9).sum()
        if masked[k]:
            ctx.check((d < 6).sum() == 0, "detected-under-mask", row=r, col=c,
                      best=d.min() if d.size else None)
            ctx.count("masked_sources")
        else:
            ctx.check(near >= 1 and d.min() < 1.0, "bright-source-missed",
                      row=r, col=c, best=d.min() if d.size else None)
            ctx.count("sources_found")
            j = np.argmin(d)
            if d.size and d[j] < 1.0:
                num = md.cat['number'][j]
                ctx.check(md.seg[int(round(y[j])), int(round(x[j]))] == num,
                          "segmentation-number", number=num)
    ctx.nontrivial("sources", nband, ng, int(masked.sum()))


FAMILIES = {
    "args": (fam_args, 900, 20000),
    "sources": (fam_sources, 40, 600),
}
