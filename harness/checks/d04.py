import numpy as np
import ngmix
import common
from mon import snapshot
from checks.d01 import gen_positions

PROPERTY = "D04"
RULE = ("masked-fraction images (constant, random, half planes, single "
        "pixels) x positions in, on and off the image x stamp sizes "
        "including zero x apertures x world transforms x weights; every "
        "position is one event; non-trivial when the image is not constant; "
        "distinct by (image kind, position class, size, aperture class)")
REQUIRED = ["positions", "edge_positions", "off_image", "zero_box",
            "default_aperture", "constant_positions", "signed_images",
            "no_weight_stamps", "empty_stamps"]
ASSUMPTIONS = [
    "the Gaussian moment sums are those of the ngmix stand-in; the oracle "
    "recomputes the weighted mean independently",
    "aperture cut-off pixels exactly on the 2-FWHM rim are not decided",
]


def ref(mfrac, x, y, bs, jac, fwhm):
    """(mean, ambiguous): Gaussian-weighted mean within 2 FWHM and within the
    stamp and the image"""
    dims = mfrac.shape
    y = float(np.float32(y))
    x = float(np.float32(x))
    sr = min(max(int(y) - bs//2 + 1, 0), 10**9)
    sc = min(max(int(x) - bs//2 + 1, 0), 10**9)
    rows = np.arange(sr, min(sr+bs, dims[0]))
    cols = np.arange(sc, min(sc+bs, dims[1]))
    if rows.size == 0 or cols.size == 0:
        return 1.0, False
    R, C = np.meshgrid(rows, cols, indexing='ij')
    dr, dc = R - y, C - x
    v = jac.dvdrow*dr + jac.dvdcol*dc
    u = jac.dudrow*dr + jac.dudcol*dc
    r2 = u*u + v*v
    sig = fwhm/2.3548200450309493
    lim = (2*fwhm)**2
    use = r2 < lim
    amb = np.any(np.abs(r2 - lim) < 1e-4*lim)
    w = np.where(use, np.exp(-0.5*r2/sig**2), 0)
    if w.sum() <= 1e-300 or not use.any():
        return None, amb
    return (w*mfrac[R, C]).sum()/w.sum(), amb


def stamp_has_weight(weight, x, y, bs):
    y = float(np.float32(y))
    x = float(np.float32(x))
    sr = max(int(y) - bs//2 + 1, 0)
    sc = max(int(x) - bs//2 + 1, 0)
    return bool(np.any(weight[sr:sr+bs, sc:sc+bs] > 0))


def fam_mean(ctx, rng, i):
    from metadetect.mfrac import measure_mfrac
    dims = (int(rng.randint(6, 60)), int(rng.randint(6, 60)))
    big = rng.uniform() < 0.04
    if big and rng.uniform() < 0.6:
        dims = (int(rng.randint(100, 310)), int(rng.randint(60, 310)))
    kind = str(rng.choice(["const", "random", "half", "pixel", "ramp",
                           "signed"]))
    rows, cols = np.mgrid[0:dims[0], 0:dims[1]]
    if kind == "const":
        mf = np.full(dims, rng.uniform())
    elif kind == "random":
        mf = rng.uniform(size=dims)
    elif kind == "half":
        mf = ((rows if rng.uniform() < 0.5 else cols)
              > min(dims)//2).astype('f8')
    elif kind == "signed":
        # the mean of any image, not only of fractions
        mf = rng.normal(size=dims)*2
    elif kind == "pixel":
        mf = np.zeros(dims)
        mf[rng.randint(dims[0]), rng.randint(dims[1])] = 1
    else:
        mf = rows/dims[0]*0.7 + cols/dims[1]*0.2
    jac = common.make_jacobian(rng, dims)
    mb = common.make_mbobs(rng, dims, 1, jac=jac, psf=True)
    obs = mb[0][0]
    with obs.writeable():
        # the measurement must not depend on bits other than the stamp edge
        obs.bmask[:, :] = rng.randint(0, 2**29, size=dims)
    if rng.uniform() < 0.3:
        # a part was never observed
        wt = obs.weight.copy()
        if rng.uniform() < 0.5:
            wt[:, :int(rng.uniform(0.2, 0.9)*dims[1])] = 0
        else:
            wt[int(rng.uniform(0.1, 0.8)*dims[0]):] = 0
        if np.any(wt > 0):
            obs.set_weight(wt)
    n = int(rng.randint(1, 8)) if not big else int(rng.randint(20, 150))
    sizes = rng.choice([0, 2, 3, 8, 16, 32, 48], size=n)
    x, y = gen_positions(rng, dims, n, 8)
    if rng.uniform() < 0.5:
        x, y = x.astype('f4'), y.astype('f4')
    scale = np.sqrt(abs(jac.dudrow*jac.dvdcol - jac.dudcol*jac.dvdrow))
    fwhm = float(scale*rng.choice([2, 4, 6, 9]))
    arg = fwhm
    if rng.uniform() < 0.2:
        arg, fwhm = None, 1.2
        ctx.count("default_aperture")
    ctx.describe(dims=dims, kind=kind, x=x, y=y, sizes=sizes, fwhm=arg,
                 scale=scale)
    snaps = [snapshot(v) for v in (mf, x, y, sizes, obs)]
    got = measure_mfrac(mfrac=mf, x=x, y=y, box_sizes=sizes, obs=obs,
                        fwhm=arg)
    for s, v, nme in zip(snaps, (mf, x, y, sizes, obs),
                         ("mfrac", "x", "y", "sizes", "obs")):
        ctx.unchanged(s, v, "input-modified/" + nme)
    got = np.asarray(got)
    ctx.require(got.shape == (n,), "result-shape", got=got.shape)
    for k in range(n):
        w = dict(k=k, x=float(x[k]), y=float(y[k]), bs=int(sizes[k]))
        if sizes[k] <= 0:
            ctx.check(got[k] == 1, "zero-box-not-fully-masked", got=got[k])
            ctx.count("zero_box")
            continue
        if (fwhm*2 < 1.5*scale):
            continue
        want, amb = ref(mf, x[k], y[k], int(sizes[k]), jac, fwhm)
        if not stamp_has_weight(obs.weight, x[k], y[k], int(sizes[k])):
            # nothing was observed there: the masked fraction is what it is
            ctx.count("no_weight_stamps")
            if not stamp_has_weight(np.ones(dims), x[k], y[k],
                                    int(sizes[k])):
                ctx.check(got[k] == 1, "empty-stamp-not-fully-masked",
                          got=got[k], **w)
                ctx.count("empty_stamps")
                continue
        off = not (-0.5 <= x[k] <= dims[1]-0.5 and -0.5 <= y[k] <= dims[0]-0.5)
        if off:
            ctx.count("off_image")
        if want is None:
            # nothing of the image within the aperture
            ctx.count("empty_aperture")
            continue
        ctx.count("positions")
        if kind == "signed":
            ctx.count("signed_images")
        else:
            ctx.check(-1e-9 <= got[k] <= 1+1e-9, "mfrac-out-of-range",
                      got=got[k], **w)
        ctx.close(got[k], want, "mfrac-value", rtol=0,
                  atol=(0.2 if kind == "signed" else 3e-2) if amb else 1e-6, **w)
        if kind == "const" and not off:
            ctx.close(got[k], mf[0, 0], "constant-not-reproduced", rtol=0,
                      atol=1e-9, **w)
            ctx.count("constant_positions")
        edge = (x[k] < 8 or y[k] < 8 or x[k] > dims[1]-9
                or y[k] > dims[0]-9)
        if edge:
            ctx.count("edge_positions")
        if kind != "const":
            ctx.nontrivial(kind, "off" if off else "edge" if edge else "in",
                           int(sizes[k]), arg is None)
    ctx.sample(ctx.info)


FAMILIES = {"mean": (fam_mean, 1200, 20000)}
_ = ngmix
