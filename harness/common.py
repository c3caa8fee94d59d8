"""Shared generators and reference models (independent of the code under
test)."""
import numpy as np
import ngmix

ALL_PLANES = ("image", "weight", "bmask", "ormask", "noise", "mfrac")


def gen_holes(rng, dims, nmax=6, kind=None):
    """hostile hole lists: (xm, ym, rm, kind); positions may be off image"""
    ny, nx = dims
    kind = kind or rng.choice([
        "none", "random", "random", "random", "lattice", "offimage", "edge",
        "tiny", "huge", "dup", "grazing", "rim"])
    n = rng.randint(1, nmax+1)
    if rng.uniform() < 0.04:
        # crowded fields: hundreds of stars, listed in any order
        n = rng.randint(40, 400)
    if kind == "none":
        z = np.zeros(0)
        return z, z.copy(), z.copy(), kind
    xm = rng.uniform(-0.2*nx - 2, 1.2*nx + 2, size=n)
    ym = rng.uniform(-0.2*ny - 2, 1.2*ny + 2, size=n)
    rm = rng.uniform(0.3, max(1.0, 0.3*min(ny, nx)), size=n)
    if kind == "lattice":
        # integer and half-integer centres and radii: exact ties
        xm = rng.randint(-4, 2*nx+4, size=n)/2.0
        ym = rng.randint(-4, 2*ny+4, size=n)/2.0
        rm = rng.randint(1, 14, size=n)/2.0
        if rng.uniform() < 0.5:
            rm = rng.choice([5.0, 10.0, 2.5, 1.0, 0.5, 0.0], size=n)
    elif kind == "offimage":
        side = rng.randint(0, 4, size=n)
        d = rng.uniform(0.01, 5, size=n)
        rm = rng.uniform(0.5, 8, size=n)
        xm = np.where(side == 0, -d, np.where(side == 1, nx-1+d, xm))
        ym = np.where(side == 2, -d, np.where(side == 3, ny-1+d, ym))
    elif kind == "edge":
        xm = rng.choice([0.0, nx-1.0, -1.0, float(nx), nx/2], size=n)
        ym = rng.choice([0.0, ny-1.0, -1.0, float(ny), ny/2], size=n)
        rm = rng.choice([0.4, 1.0, 1.5, 3.0, 5.0], size=n)
    elif kind == "tiny":
        rm = rng.uniform(0, 0.8, size=n)
    elif kind == "huge":
        rm = rng.uniform(0.5, 3.0, size=n)*max(ny, nx)
    elif kind == "dup":
        k = rng.randint(n)
        xm[:] = xm[k]
        ym[:] = ym[k]
        rm[:] = rm[k]
    elif kind == "rim":
        # some pixel lies a hair inside or outside the rim
        row = rng.randint(0, ny, size=n)
        col = rng.randint(0, nx, size=n)
        d = np.sqrt((row-ym)**2 + (col-xm)**2)
        # (single precision holds seven digits, double precision sixteen)
        rm = d*(1 + rng.choice([-1, 1], size=n)*10**rng.uniform(-8.7, -6, n))
    elif kind == "grazing":
        # just touches or just misses the corner/edge pixels
        eps = rng.choice([-1e-3, 1e-3, -0.2, 0.2], size=n)
        rm = rng.uniform(1, 6, size=n)
        row = rng.choice([0.0, ny-1.0], size=n)
        sgn = np.where(row == 0, -1, 1)
        ym = row + sgn*(rm + eps)
        xm = np.rint(rng.uniform(0, nx-1, size=n))
        if rng.uniform() < 0.5 and ny == nx:
            xm, ym = ym, xm
    return (np.array(xm, dtype='f8'), np.array(ym, dtype='f8'),
            np.array(rm, dtype='f8'), str(kind))


def recast(rng, arr):
    """the same values in another dtype / byte order / layout; returns the
    array to pass and the float64 values it holds"""
    k = rng.randint(6)
    if k == 0:
        out = arr.astype('f4')
    elif k == 1:
        out = arr.astype('>f8')
    elif k == 2:
        out = arr.astype('>f4')
    elif k == 3:
        big = np.zeros(2*arr.size + 1)
        big[1::2] = arr
        out = big[1::2]
    elif k == 4 and np.all(arr == np.rint(arr)):
        out = arr.astype('i4')
    else:
        out = arr.copy()
    return out, out.astype('f8')


def ref_hole_mask(xm, ym, rm, dims):
    """(inside, undecided): inside some hole; within rounding of a rim"""
    rows, cols = np.mgrid[0:dims[0], 0:dims[1]]
    inside = np.zeros(dims, dtype=bool)
    undec = np.zeros(dims, dtype=bool)
    for x, y, r in zip(xm, ym, rm):
        if r <= 0:
            continue
        r2 = (rows - y)**2 + (cols - x)**2
        inside |= r2 < r*r
        undec |= (np.abs(r2 - r*r) < 1e-9*r*r) & (r2 != r*r)
    return inside, undec & ~inside


def ref_kern(x, m, h):
    """cumulative triweight rising from 0 at m-6h to 1 at m"""
    y = (np.asarray(x, dtype='f8') - m)/h + 3
    t = np.clip(y, -3, 3)/3.0
    # integral of 35/32 (1-t^2)^3 from -1 to t
    val = 0.5 + 35/32*(t - t**3 + 3*t**5/5 - t**7/7)
    return np.where(y < -3, 0.0, np.where(y > 3, 1.0, val))


def ref_hole_window(xm, ym, rm, dims, ap_rad):
    rows, cols = np.mgrid[0:dims[0], 0:dims[1]]
    win = np.ones(dims)
    for x, y, r in zip(xm, ym, rm):
        if r <= 0:
            continue
        d = np.sqrt((rows - y)**2 + (cols - x)**2)
        win *= np.where(d < r, ref_kern(d, r, ap_rad), 1.0)
    return win


def ref_edge_window(dims, ap_rad):
    """product of the rising profile measured from each of the four edges"""
    rng_pix = int(6*ap_rad + 0.5)

    def line(n):
        i = np.arange(n)
        k = ref_kern(i, rng_pix, ap_rad)
        return k*k[::-1]
    return np.outer(line(dims[0]), line(dims[1]))


def make_jacobian(rng, dims, kind=None):
    kind = kind or rng.choice(["plain", "scaled", "rot", "shear", "general"])
    scale = rng.uniform(0.15, 0.4)
    m = np.eye(2)*scale
    if kind == "plain":
        m = np.eye(2)
    elif kind == "rot":
        t = rng.uniform(0, 2*np.pi)
        m = scale*np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
    elif kind == "shear":
        m = scale*(np.eye(2) + rng.uniform(-0.1, 0.1, size=(2, 2)))
    elif kind == "general":
        t = rng.uniform(0, 2*np.pi)
        r = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        m = scale*r.dot(np.eye(2) + rng.uniform(-0.2, 0.2, size=(2, 2)))
        if rng.uniform() < 0.3:
            m = m[::-1]
    row = rng.uniform(0, dims[0]-1)
    col = rng.uniform(0, dims[1]-1)
    return ngmix.Jacobian(
        row=row, col=col,
        dvdrow=m[0, 0], dvdcol=m[0, 1], dudrow=m[1, 0], dudcol=m[1, 1],
    )


def make_mbobs(rng, dims, nband, nepoch=1, with_mfrac=None, with_ormask=True,
               weight_kind=None, with_noise=True, jac=None, psf=False):
    mbobs = ngmix.MultiBandObsList()
    mbobs.meta["tag"] = "mb"
    if with_mfrac is None:
        with_mfrac = rng.uniform() < 0.7
    for b in range(nband):
        obslist = ngmix.ObsList()
        for e in range(nepoch):
            # the units are anybody's choice
            unit = 10**rng.uniform(-5, 5) if rng.uniform() < 0.2 else 1.0
            var = rng.uniform(0.1, 10)*unit**2
            weight = np.full(dims, 1.0/var)
            wk = weight_kind or rng.choice(["flat", "varying", "holes"])
            if wk == "varying":
                weight *= rng.uniform(0.5, 2, size=dims)
            elif wk == "holes":
                weight[rng.uniform(size=dims)
                       < rng.choice([0.1, 0.1, 0.6])] = 0.0
                if not np.any(weight > 0):
                    weight[0, 0] = 1.0
            kw = {}
            if with_noise:
                kw["noise"] = rng.normal(size=dims)*np.sqrt(var)
            if with_ormask:
                kw["ormask"] = rng.choice(
                    [0, 1, 2, 2**10, 2**30], size=dims).astype('i4')
            if with_mfrac == "some":
                has_mfrac = bool(rng.randint(2))
            else:
                has_mfrac = with_mfrac
            if has_mfrac:
                kw["mfrac"] = rng.uniform(size=dims)
            j = jac if jac is not None else make_jacobian(rng, dims)
            if psf:
                pd = (11, 11)
                if rng.uniform() < 0.6:
                    pd = (int(rng.randint(8, 14)), int(rng.randint(8, 14)))
                pr, pc = (pd[0]-1)/2, (pd[1]-1)/2
                kw["psf"] = ngmix.Observation(
                    gauss_image(pd, pr, pc, 1.5),
                    jacobian=ngmix.Jacobian(
                        row=pr, col=pc, dvdrow=j.dvdrow, dvdcol=j.dvdcol,
                        dudrow=j.dudrow, dudcol=j.dudcol),
                )
            obs = ngmix.Observation(
                (rng.normal(size=dims, scale=3) + b*10 + e)*unit,
                weight=weight,
                bmask=rng.choice(
                    [0, 0, 0, 1, 2**4, 2**12, 2**30],
                    size=dims).astype('i4'),
                jacobian=j,
                meta={"band": b, "epoch": e},
                **kw,
            )
            obslist.append(obs)
        mbobs.append(obslist)
    return mbobs


def gauss_image(dims, row, col, sigma, flux=1.0, e1=0.0, e2=0.0):
    rows, cols = np.mgrid[0:dims[0], 0:dims[1]]
    y = rows - row
    x = cols - col
    a = 1 + e1
    b = 1 - e1
    det = a*b - e2*e2
    chi = (b*x*x - 2*e2*x*y + a*y*y)/det/sigma**2
    im = np.exp(-0.5*chi)
    return flux*im/im.sum()


def planes(obs):
    """copies of all planes of an observation"""
    out = {}
    for name in ALL_PLANES:
        if name in ("image", "weight") or getattr(obs, "has_" + name)():
            out[name] = np.array(getattr(obs, name))
    return out


def mb_planes(mbobs):
    return [[planes(o) for o in ol] for ol in mbobs]


def mb_ignore(mbobs):
    return [[bool(o.ignore_zero_weight) for o in ol] for ol in mbobs]


def check_pixels(ctx, obs, ignored, **w):
    """an observation hands its weighted pixels to the fitters; one without
    any stays usable as a container"""
    n = int(np.sum(np.asarray(obs.weight) > 0))
    want = n if ignored and n > 0 else obs.image.size
    ctx.check(obs.pixels.size == want, "fitters-given-wrong-pixels",
              got=int(obs.pixels.size), want=want, **w)
