"""stand-in for lsst.afw.geom: world coordinate systems and span sets"""
import math
import numpy as np
from ..geom import (
    Point2I, Point2D, Extent2I, Extent2D, Box2I, SpherePoint, AffineTransform,
    LinearTransform, Angle, degrees, radians, arcseconds,
)
from ..pex.exceptions import OutOfRangeError


class SkyWcs:
    """gnomonic projection; crpix is zero-based, cd in degrees per pixel"""

    def __init__(self, crpix, crval, cdMatrix):
        self._crpix = Point2D(crpix)
        self._crval = crval
        self._cd = np.array(cdMatrix, dtype=float)
        self._icd = np.linalg.inv(self._cd)

    def getPixelOrigin(self):
        return Point2D(self._crpix)

    def getSkyOrigin(self):
        return self._crval

    def getCdMatrix(self, *a):
        return self._cd.copy()

    def getPixelScale(self, *a):
        return Angle(math.sqrt(abs(np.linalg.det(self._cd))), degrees)

    def _p2s(self, x, y):
        x = np.asarray(x, dtype=float) - self._crpix.x
        y = np.asarray(y, dtype=float) - self._crpix.y
        d2r = math.pi / 180
        xi = (self._cd[0, 0]*x + self._cd[0, 1]*y) * d2r
        eta = (self._cd[1, 0]*x + self._cd[1, 1]*y) * d2r
        a0 = self._crval._lon
        d0 = self._crval._lat
        den = math.cos(d0) - eta*math.sin(d0)
        ra = a0 + np.arctan2(xi, den)
        dec = np.arctan2(math.sin(d0) + eta*math.cos(d0),
                         np.sqrt(xi**2 + den**2))
        return ra % (2*math.pi), dec

    def _s2p(self, ra, dec):
        ra = np.asarray(ra, dtype=float)
        dec = np.asarray(dec, dtype=float)
        a0 = self._crval._lon
        d0 = self._crval._lat
        c = (math.sin(d0)*np.sin(dec)
             + math.cos(d0)*np.cos(dec)*np.cos(ra - a0))
        xi = np.cos(dec)*np.sin(ra - a0)/c
        eta = (math.cos(d0)*np.sin(dec)
               - math.sin(d0)*np.cos(dec)*np.cos(ra - a0))/c
        r2d = 180/math.pi
        xi, eta = xi*r2d, eta*r2d
        x = self._icd[0, 0]*xi + self._icd[0, 1]*eta + self._crpix.x
        y = self._icd[1, 0]*xi + self._icd[1, 1]*eta + self._crpix.y
        return x, y

    def pixelToSky(self, *args):
        if len(args) == 2:
            args = (Point2D(*args),)
        p = args[0]
        if isinstance(p, (list, tuple)):
            return [self.pixelToSky(q) for q in p]
        if not isinstance(p, Point2D) or p._int:
            raise TypeError("pixelToSky needs a Point2D")
        ra, dec = self._p2s(p.x, p.y)
        return SpherePoint(float(ra), float(dec), radians)

    def skyToPixel(self, p):
        if isinstance(p, (list, tuple)):
            return [self.skyToPixel(q) for q in p]
        x, y = self._s2p(p._lon, p._lat)
        return Point2D(float(x), float(y))

    def pixelToSkyArray(self, x, y, degrees=False):
        ra, dec = self._p2s(x, y)
        if degrees:
            return np.rad2deg(ra), np.rad2deg(dec)
        return ra, dec

    def skyToPixelArray(self, ra, dec, degrees=False):
        ra = np.asarray(ra, dtype=float)
        dec = np.asarray(dec, dtype=float)
        if degrees:
            ra, dec = np.deg2rad(ra), np.deg2rad(dec)
        return self._s2p(ra, dec)

    def linearizePixelToSky(self, pix, unit=arcseconds):
        if isinstance(pix, SpherePoint):
            pix = self.skyToPixel(pix)
        if pix._int:
            raise TypeError("linearizePixelToSky needs a Point2D")
        c = self.pixelToSky(pix)
        px = c.getTangentPlaneOffset(
            self.pixelToSky(Point2D(pix.x + 1, pix.y)))
        py = c.getTangentPlaneOffset(
            self.pixelToSky(Point2D(pix.x, pix.y + 1)))
        m = np.array(
            [[px[0].asAngularUnits(unit), py[0].asAngularUnits(unit)],
             [px[1].asAngularUnits(unit), py[1].asAngularUnits(unit)]])
        pos = c.getPosition(unit)
        t = np.array([pos.x, pos.y]) - m @ np.array([pix.x, pix.y])
        return AffineTransform(LinearTransform(m), Extent2D(*t))

    def clone(self):
        return SkyWcs(self._crpix, self._crval, self._cd)

    def copyAtShiftedPixelOrigin(self, shift):
        return SkyWcs(self._crpix + Extent2D(shift), self._crval, self._cd)

    def __eq__(self, o):
        return (isinstance(o, SkyWcs) and self._crpix == o._crpix
                and self._crval == o._crval
                and np.array_equal(self._cd, o._cd))

    def __hash__(self):
        return hash((self._crpix, self._crval))

    def __repr__(self):
        return "SkyWcs(%r, %r, %r)" % (
            self._crpix, self._crval, self._cd.tolist())


def makeSkyWcs(crpix, crval, cdMatrix, projection="TAN"):
    return SkyWcs(crpix, crval, cdMatrix)


def makeCdMatrix(scale, orientation=Angle(0), flipX=False):
    s = scale.asDegrees()
    t = orientation.asRadians()
    m = s*np.array([[math.cos(t), math.sin(t)],
                    [-math.sin(t), math.cos(t)]])
    if flipX:
        m[:, 0] *= -1
    return m


class SpanSet:
    """a set of pixels in row-major order"""

    def __init__(self, *args):
        if len(args) == 0:
            self._y = np.zeros(0, dtype=int)
            self._x = np.zeros(0, dtype=int)
        elif len(args) == 1 and isinstance(args[0], Box2I):
            b = args[0]
            yy, xx = np.mgrid[b.getBeginY():b.getEndY(),
                              b.getBeginX():b.getEndX()]
            self._y, self._x = yy.ravel(), xx.ravel()
        elif len(args) == 2:
            y, x = np.asarray(args[0], dtype=int), np.asarray(
                args[1], dtype=int)
            if y.size:
                yx = np.unique(np.stack([y, x], axis=1), axis=0)
                y, x = yx[:, 0], yx[:, 1]
            self._y, self._x = y, x
        else:
            raise NotImplementedError("stand-in: SpanSet from spans")

    @classmethod
    def fromMask(cls, mask, bitmask=None):
        arr = mask.array
        sel = (arr & bitmask) != 0 if bitmask is not None else arr != 0
        y, x = np.where(sel)
        xy0 = mask.getXY0()
        return cls(y + xy0.y, x + xy0.x)

    def getBBox(self):
        if self._y.size == 0:
            return Box2I()
        return Box2I(
            Point2I(int(self._x.min()), int(self._y.min())),
            Point2I(int(self._x.max()), int(self._y.max())))

    def getArea(self):
        return int(self._y.size)

    def size(self):
        return int(np.unique(self._y).size)

    def isEmpty(self):
        return self._y.size == 0

    empty = isEmpty

    def contains(self, o):
        if isinstance(o, SpanSet):
            mine = set(zip(self._y.tolist(), self._x.tolist()))
            return all(p in mine for p in zip(o._y.tolist(), o._x.tolist()))
        o = Point2I(o)
        return bool(np.any((self._x == o.x) & (self._y == o.y)))

    def clippedTo(self, box):
        w = ((self._x >= box.getBeginX()) & (self._x < box.getEndX())
             & (self._y >= box.getBeginY()) & (self._y < box.getEndY()))
        return SpanSet(self._y[w], self._x[w])

    def shiftedBy(self, *o):
        if len(o) == 1:
            o = (o[0].x, o[0].y)
        return SpanSet(self._y + o[1], self._x + o[0])

    def union(self, o):
        return SpanSet(np.concatenate([self._y, o._y]),
                       np.concatenate([self._x, o._x]))

    def intersect(self, o):
        other = set(zip(o._y.tolist(), o._x.tolist()))
        keep = [p in other for p in zip(self._y.tolist(), self._x.tolist())]
        keep = np.array(keep, dtype=bool)
        return SpanSet(self._y[keep], self._x[keep])

    def indices(self):
        return self._y.tolist(), self._x.tolist()

    def computeCentroid(self):
        return Point2D(float(self._x.mean()), float(self._y.mean()))

    def _local(self, bbox):
        """row, column indices into an array covering bbox"""
        if self._y.size and not bbox.contains(self.getBBox()):
            raise OutOfRangeError(
                "spans %r are not within the image %r" % (
                    self.getBBox(), bbox))
        return self._y - bbox.getBeginY(), self._x - bbox.getBeginX()

    def setMask(self, mask, bitmask):
        r, c = self._local(mask.getBBox())
        mask.array[r, c] |= bitmask

    def clearMask(self, mask, bitmask):
        r, c = self._local(mask.getBBox())
        mask.array[r, c] &= ~bitmask

    def setImage(self, image, value, region=None, doClip=False):
        s = self.clippedTo(image.getBBox()) if doClip else self
        r, c = s._local(image.getBBox())
        image.array[r, c] = value

    def flatten(self, array, xy0=None):
        xy0 = xy0 or Point2I(0, 0)
        return np.array(array[self._y - xy0.y, self._x - xy0.x])

    def unflatten(self, values, bbox=None, fill=0):
        bbox = bbox or self.getBBox()
        out = np.full((bbox.getHeight(), bbox.getWidth()), fill,
                      dtype=np.asarray(values).dtype)
        r, c = self._local(bbox)
        out[r, c] = values
        return out

    def __eq__(self, o):
        return (isinstance(o, SpanSet) and np.array_equal(self._y, o._y)
                and np.array_equal(self._x, o._x))

    def __hash__(self):
        return hash((self._y.tobytes(), self._x.tobytes()))
