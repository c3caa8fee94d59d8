import numpy as np
import common
from checks.d01 import fake_sep, fake_catalog, unique_mbobs

PROPERTY = "D02"
RULE = ("scripted detection catalogues with extents over four decades x both "
        "sizing modes x size limits that are and are not allowed sizes; "
        "every object is one event; distinct by (mode, limits, resulting "
        "size)")
REQUIRED = ["sigma_size_objects", "iso_radius_objects", "clipped_min",
            "clipped_max", "bad_type_refused", "empty_catalogs"]
ASSUMPTIONS = ["extents within 1e-5 of a size boundary accept either side"]

ALLOWED = [2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 192, 256, 384, 512,
           768, 1024, 1536, 2048, 3072, 4096, 6144]
FWHM_FAC = 2*np.sqrt(2*np.log(2))


def needed(cat, conf):
    """(low, high) extent in pixels, allowing for rounding"""
    out = []
    for eps in (-1e-5, 1e-5):
        if conf['box_type'] == 'sigma_size':
            ell = 1 - cat['b']/cat['a']
            sigma = cat['flux_radius']*2/FWHM_FAC
            r = np.ceil(sigma*conf['sigma_fac']*(1 + ell)*(1 + eps))
            size = np.maximum(2*r.astype('i8'),
                              np.maximum(cat['xmax'] - cat['xmin'] + 1,
                                         cat['ymax'] - cat['ymin'] + 1))
        else:
            rad = np.maximum(cat['iso_radius'].astype('f8'), conf['rad_min'])
            size = ((2*rad*conf['rad_fac'] + conf['box_padding'])
                    * (1 + eps)).astype('i8')
        out.append(size)
    return out


def final(size, conf):
    mn, mx = conf['min_box_size'], conf['max_box_size']
    s = np.clip(size, mn, mx)
    ok = sorted({a for a in ALLOWED if mn <= a <= mx} | {mx})
    return np.array([min(a for a in ok if a >= v) for v in s], dtype='i8')


def gen_conf(rng):
    mn = int(rng.choice([1, 2, 5, 16, 24, 32, 33, 48, 100, 256]))
    mx = int(rng.choice([16, 32, 33, 48, 64, 100, 256, 300, 1000, 6144]))
    if mx < mn:
        mn, mx = mx, mn
    conf = dict(min_box_size=mn, max_box_size=mx)
    if rng.uniform() < 0.5:
        conf.update(box_type='sigma_size',
                    sigma_fac=float(rng.choice([1, 2.5, 5])))
    else:
        conf.update(box_type='iso_radius', rad_min=float(rng.choice([0.5, 4])),
                    rad_fac=float(rng.choice([1, 2, 3.3])),
                    box_padding=int(rng.choice([0, 2, 5])))
    return conf


_MB = {}


def fam_sizes(ctx, rng, i):
    from metadetect.detect import MEDSifier
    if "mb" not in _MB:
        _MB["mb"] = unique_mbobs(np.random.RandomState(5), (40, 40), 1)
    mb = _MB["mb"]
    n = int(rng.choice([0, 1, 5, 20]))
    fc = fake_catalog(rng, rng.uniform(0, 39, size=n),
                      rng.uniform(0, 39, size=n))
    if n > 2:
        # round objects, exact sizes
        fc['b'][0] = fc['a'][0]
        fc['iso_radius'][1] = rng.choice([8, 16, 32, 24])
        fc['xmax'][2] = fc['xmin'][2] + int(rng.choice(ALLOWED[:14])) - 1
    conf = gen_conf(rng)
    ctx.describe(conf=conf, n=n)
    keep = dict(conf)
    with fake_sep(lambda **kw: (fc.copy(), np.zeros((40, 40), dtype='i4'))):
        md = MEDSifier(mb, None, conf)
    ctx.check(conf == keep, "config-modified")
    got = np.array(md.cat['box_size'])
    ctx.require(got.size == n, "objects-lost")
    if n == 0:
        ctx.count("empty_catalogs")
        return
    lo, hi = needed(fc, conf)
    a, b = final(lo, conf), final(hi, conf)
    ok = (got == a) | (got == b)
    ctx.check(ok.all(), "box-size", got=got, want=a, conf=conf, needed=lo)
    ctx.check(np.all(got <= conf['max_box_size']), "box-larger-than-max")
    ctx.check(np.all(got >= conf['min_box_size']), "box-smaller-than-min")
    order = np.argsort(lo, kind='stable')
    ctx.check(np.all(np.diff(got[order]) >= 0) or not np.array_equal(lo, hi),
              "box-size-not-monotonic")
    ctx.count(conf['box_type'] + "_objects", n)
    ctx.count("clipped_min", (lo < conf['min_box_size']).sum())
    ctx.count("clipped_max", (lo > conf['max_box_size']).sum())
    for g in set(got.tolist()):
        ctx.nontrivial(conf['box_type'], conf['min_box_size'],
                       conf['max_box_size'], g)
    ctx.sample(dict(conf=conf, needed=lo, got=got))


def fam_bad(ctx, rng, i):
    from metadetect.detect import MEDSifier
    mb = unique_mbobs(rng, (40, 40), 1)
    fc = fake_catalog(rng, rng.uniform(0, 39, size=3),
                      rng.uniform(0, 39, size=3))
    conf = gen_conf(rng)
    conf['box_type'] = str(rng.choice(['', 'sigma', 'fixed', 'iso']))
    with fake_sep(lambda **kw: (fc.copy(), np.zeros((40, 40), dtype='i4'))):
        ctx.expect_raises(lambda: MEDSifier(mb, None, conf),
                          (ValueError, KeyError), "bad-box-type-accepted",
                          conf=conf)
    ctx.count("bad_type_refused")


FAMILIES = {
    "sizes": (fam_sizes, 1500, 30000),
    "bad": (fam_bad, 8, 50),
}
_ = common
