"""Exposures, multi-band scenes and references for the LSST part."""
import math
import numpy as np
import galsim

AP_RAD = 1.5
EXPAND = 16


def new_planes(rng):
    """mask plane bits differ from run to run, as they do in the stack"""
    from lsst.afw import image as ai
    names = ["CROSSTALK", "BRIGHT", "BRIGHT_EXPANDED", "APODIZED_EDGE",
             "UNMASKEDNAN", "SENSOR_EDGE", "CLIPPED", "THISDET"]
    k = rng.randint(0, len(names) + 1)
    ai._reset_planes([names[j] for j in rng.permutation(len(names))[:k]])


def make_wcs(rng, center, scale=None, theta=None):
    """a sky-handed (parity flipped) rotated scale; crpix is off centre"""
    from lsst.afw.geom import SkyWcs
    from lsst.geom import Point2D, SpherePoint, degrees
    scale = scale or float(rng.choice([0.2, 0.2, 0.263, 0.15]))
    if theta is None:
        theta = float(rng.choice([0, 0, 90, 180, rng.uniform(0, 360)]))
    t = math.radians(theta)
    s = scale/3600.0
    cd = s*np.array([[-math.cos(t), math.sin(t)],
                     [math.sin(t), math.cos(t)]])
    crpix = Point2D(center[0] + rng.uniform(-300, 300),
                    center[1] + rng.uniform(-300, 300))
    ra = float(rng.choice([200.0, 359.9999, 0.0001, rng.uniform(0, 360)]))
    dec = float(rng.uniform(-70, 70))
    return SkyWcs(crpix, SpherePoint(ra, dec, degrees), cd), scale


def gauss_psf(dim, scale, fwhm, g1=0.0, g2=0.0, flux=1.0):
    g = galsim.Gaussian(fwhm=fwhm, flux=flux).shear(g1=g1, g2=g2)
    im = g.drawImage(nx=dim, ny=dim, scale=scale, method='no_pixel').array
    return np.array(im, dtype='f8')


def make_psf(rng, scale, dim=None, fwhm=None, varying=None):
    from lsst.meas.algorithms import KernelPsf, VaryingPsf
    from lsst.afw.math import FixedKernel
    from lsst.afw.image import ImageD
    dim = dim or int(rng.choice([25, 31, 35, 41]))
    fwhm = fwhm or float(rng.uniform(0.7, 1.0))
    g1, g2 = rng.uniform(-0.04, 0.04, size=2)
    if varying is None:
        varying = rng.uniform() < 0.3
    if varying:
        ph = rng.uniform(0, 6, size=2)
        # kernel images cut from larger ones do not quite sum to one
        total = rng.uniform(0.9, 1.1) if rng.uniform() < 0.4 else 1.0

        def fn(x, y):
            f = fwhm*(1 + 0.03*math.sin(x/37.0 + ph[0])
                      + 0.03*math.cos(y/29.0 + ph[1]))
            arr = gauss_psf(dim, scale, f, g1, g2)
            return arr*(total/arr.sum())
        return VaryingPsf(fn, clonable=rng.uniform() < 0.7)
    arr = gauss_psf(dim, scale, fwhm, g1, g2)
    return KernelPsf(FixedKernel(ImageD(arr)))


def make_exposure(rng, box, wcs, psf, band, dtype=None, noise=1.0, image=None,
                  bad_var=0.0, masked=True):
    """an exposure of noise (or the given image), with mask bits, variance"""
    from lsst.afw import image as ai
    dtype = dtype or ('f8' if rng.uniform() < 0.3 else 'f4')
    cls = ai.ExposureD if np.dtype(dtype) == np.float64 else ai.ExposureF
    exp = cls(box)
    dims = exp.image.array.shape
    exp.image.array[:, :] = rng.normal(scale=noise, size=dims)
    if image is not None:
        exp.image.array[:, :] += image
    exp.variance.array[:, :] = noise**2
    if rng.uniform() < 0.5:
        exp.variance.array[:, :] *= rng.uniform(0.8, 1.3, size=dims)
    if bad_var > 0:
        k = rng.uniform(size=dims) < bad_var
        vals = np.array([np.inf, 0.0, np.nan, -1.0])
        exp.variance.array[k] = vals[rng.randint(4, size=k.sum())]
    if masked:
        m = rng.randint(0, 2**20, size=dims)
        exp.mask.array[:, :] = np.where(
            rng.uniform(size=dims) < 0.1, m, 0)
    exp.setWcs(wcs)
    exp.setPsf(psf)
    exp.setFilter(ai.FilterLabel(band))
    return exp


def unit(rng):
    """images come in any units"""
    return 10**rng.uniform(-8, 8) if rng.uniform() < 0.2 else 1.0


def random_box(rng, lo=20, hi=60, square=None):
    from lsst.geom import Box2I, Point2I, Extent2I
    nx = int(rng.randint(lo, hi))
    ny = nx if (square or (square is None and rng.uniform() < 0.4)) \
        else int(rng.randint(lo, hi))
    x0, y0 = (0, 0) if rng.uniform() < 0.25 else [
        int(v) for v in rng.randint(-300, 3000, size=2)]
    if rng.uniform() < 0.15:
        # the pixels of a whole tract
        x0, y0 = [int(v) for v in rng.randint(8000, 45000, size=2)]
    return Box2I(Point2I(x0, y0), Extent2I(nx, ny))


def box_center(box):
    c = box.getCenter()
    return c.x, c.y


def multi(exps):
    """multi-band exposure with filter, PSF and wcs set, built here and not by
    the code under test"""
    from lsst.afw.image import MultibandExposure
    bands = [e.getFilter().bandLabel for e in exps]
    mb = MultibandExposure.fromExposures(bands, exps)
    for e, s in zip(exps, mb.singles):
        s.setFilter(e.getFilter())
        s.setWcs(e.getWcs())
        s.setPsf(e.getPsf())
    return mb


def planes(exp):
    return [np.array(exp.image.array), np.array(exp.variance.array),
            np.array(exp.mask.array)]


def state(exp):
    """what an exposure holds, for modification checks"""
    from mon import snapshot
    return (snapshot(planes(exp)), id(exp.getPsf()), id(exp.getWcs()),
            repr(exp.getFilter()), repr(exp.getBBox()),
            repr(sorted(exp.getMetadata().items())))


def mbstate(mb):
    return tuple(state(e) for e in mb.singles) + (tuple(mb.bands),)


def bands_of(rng, nmin=1, nmax=3):
    n = int(rng.randint(nmin, nmax + 1))
    if rng.uniform() < 0.2:
        # instruments with labels longer than a letter, some within others
        return [str(b) for b in rng.choice(
            ["i", "i2", "r", "r2", "N921", "N9", "VR", "R"], size=n,
            replace=False)]
    return [str(b) for b in rng.choice(list("ugrizy"), size=n,
                                       replace=False)]


# ------------------------------------------------------------- references
def true_jacobian(wcs, x, y):
    """(dudcol, dudrow, dvdcol, dvdrow) in arcsec, u west and v north, by
    differencing the projection itself"""
    from lsst.geom import Point2D
    c = wcs.pixelToSky(Point2D(x, y))
    h = 0.5
    out = []
    for ddx, ddy in ((h, 0), (0, h)):
        a = c.getTangentPlaneOffset(
            wcs.pixelToSky(Point2D(x + ddx, y + ddy)))
        b = c.getTangentPlaneOffset(
            wcs.pixelToSky(Point2D(x - ddx, y - ddy)))
        out.append([(a[k].asArcseconds() - b[k].asArcseconds())/(2*h)
                    for k in range(2)])
    (rx, dx), (ry, dy) = out
    return -rx, -ry, dx, dy


def jac_tuple(jac):
    return (jac.dudcol, jac.dudrow, jac.dvdcol, jac.dvdrow)


def jac_cen(jac):
    r, c = jac.get_cen()
    return r, c
