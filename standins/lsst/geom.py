"""stand-in for lsst.geom"""
import math
import operator
import numpy as np
from .pex.exceptions import LengthError  # noqa


class _Coord2:
    _int = False
    __slots__ = ("_v",)

    def __init__(self, *args, **kw):
        if kw:
            args = (kw["x"], kw["y"])
        if len(args) == 0:
            x, y = 0, 0
        elif len(args) == 1:
            a = args[0]
            if isinstance(a, _Coord2):
                x, y = a._v
                if self._int and not a._int:
                    x = int(math.floor(x + 0.5))
                    y = int(math.floor(y + 0.5))
            elif isinstance(a, (list, tuple, np.ndarray)) and len(a) == 2:
                x, y = a
            elif isinstance(a, (int, float)):
                x = y = a
            else:
                raise TypeError("incompatible constructor arguments")
        else:
            x, y = args
        if self._int:
            self._v = (operator.index(x), operator.index(y))
        else:
            self._v = (float(x), float(y))

    def getX(self):
        return self._v[0]

    def getY(self):
        return self._v[1]

    @property
    def x(self):
        return self._v[0]

    @x.setter
    def x(self, val):
        self.setX(val)

    @property
    def y(self):
        return self._v[1]

    @y.setter
    def y(self, val):
        self.setY(val)

    def _one(self, val):
        return operator.index(val) if self._int else float(val)

    def setX(self, val):
        self._v = (self._one(val), self._v[1])

    def setY(self, val):
        self._v = (self._v[0], self._one(val))

    def __getitem__(self, i):
        return self._v[i]

    def __len__(self):
        return 2

    def __iter__(self):
        return iter(self._v)

    def __eq__(self, other):
        return (isinstance(other, _Coord2)
                and isinstance(self, Extent2D) == isinstance(other, Extent2D)
                and self._v == other._v)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self._v)

    def __repr__(self):
        return "%s(%r, %r)" % (type(self).__name__, *self._v)

    def clone(self):
        return type(self)(*self._v)


def _mk(int_, extent, x, y):
    cls = ((Extent2I if extent else Point2I) if int_
           else (Extent2D if extent else Point2D))
    return cls(x, y)


class Point2D(_Coord2):
    _int = False
    __slots__ = ()

    def __add__(self, o):
        if not _isext(o):
            return NotImplemented
        return _mk(self._int and o._int, False, self.x + o.x, self.y + o.y)

    def __sub__(self, o):
        if not isinstance(o, _Coord2):
            return NotImplemented
        return _mk(self._int and o._int, not _isext(o),
                   self.x - o.x, self.y - o.y)

    def shift(self, o):
        self._v = (self.x + o.x, self.y + o.y)

    def distanceSquared(self, o):
        return (self.x - o.x)**2 + (self.y - o.y)**2

    def asExtent(self):
        return _mk(self._int, True, *self._v)


class Point2I(Point2D):
    _int = True
    __slots__ = ()


class Extent2D(_Coord2):
    _int = False
    __slots__ = ()

    def __add__(self, o):
        if isinstance(o, Point2D):
            return o + self
        if not _isext(o):
            return NotImplemented
        return _mk(self._int and o._int, True, self.x + o.x, self.y + o.y)

    def __sub__(self, o):
        if not _isext(o):
            return NotImplemented
        return _mk(self._int and o._int, True, self.x - o.x, self.y - o.y)

    def __neg__(self):
        return _mk(self._int, True, -self.x, -self.y)

    def __mul__(self, f):
        return _mk(self._int and isinstance(f, int), True,
                   self.x * f, self.y * f)

    __rmul__ = __mul__

    def __truediv__(self, f):
        return Extent2D(self.x / f, self.y / f)

    def asPoint(self):
        return _mk(self._int, False, *self._v)

    def computeNorm(self):
        return math.hypot(*self._v)


class Extent2I(Extent2D):
    _int = True
    __slots__ = ()


def _isext(o):
    return isinstance(o, Extent2D)


Point = Point2D
PointI = Point2I
PointD = Point2D
ExtentI = Extent2I
ExtentD = Extent2D


class Box2I:
    def __init__(self, *args, **kw):
        args = list(args)
        for k in ("minimum", "maximum", "corner", "dimensions", "other"):
            if k in kw:
                args.append(kw[k])
        if len(args) == 0:
            self._set(0, 0, 0, 0)
            return
        if len(args) == 1:
            o = args[0]
            if isinstance(o, Box2I):
                self._set(o._x0, o._y0, o._w, o._h)
            elif isinstance(o, Box2D):
                x0 = int(math.floor(o._x0 + 0.5))
                y0 = int(math.floor(o._y0 + 0.5))
                x1 = int(math.floor(o._x1 + 0.5)) - 1
                y1 = int(math.floor(o._y1 + 0.5)) - 1
                self._set(x0, y0, x1 - x0 + 1, y1 - y0 + 1)
            else:
                raise TypeError("incompatible constructor arguments")
            return
        a, b = args[:2]
        if not isinstance(a, Point2I):
            raise TypeError("incompatible constructor arguments")
        if isinstance(b, Extent2I):
            self._set(a.x, a.y, b.x, b.y)
        elif isinstance(b, Point2I):
            self._set(a.x, a.y, b.x - a.x + 1, b.y - a.y + 1)
        else:
            raise TypeError("incompatible constructor arguments")

    def _set(self, x0, y0, w, h):
        if w <= 0 or h <= 0:
            x0 = y0 = w = h = 0
        self._x0, self._y0, self._w, self._h = x0, y0, w, h

    def getMinX(self):
        return self._x0

    def getMinY(self):
        return self._y0

    def getMaxX(self):
        return self._x0 + self._w - 1

    def getMaxY(self):
        return self._y0 + self._h - 1

    def getBeginX(self):
        return self._x0

    def getBeginY(self):
        return self._y0

    def getEndX(self):
        return self._x0 + self._w

    def getEndY(self):
        return self._y0 + self._h

    def getWidth(self):
        return self._w

    def getHeight(self):
        return self._h

    def getArea(self):
        return self._w * self._h

    def getMin(self):
        return Point2I(self._x0, self._y0)

    def getMax(self):
        return Point2I(self.getMaxX(), self.getMaxY())

    def getBegin(self):
        return self.getMin()

    def getEnd(self):
        return Point2I(self.getEndX(), self.getEndY())

    def getDimensions(self):
        return Extent2I(self._w, self._h)

    def getCenter(self):
        return Point2D(self._x0 + (self._w - 1) / 2.0,
                       self._y0 + (self._h - 1) / 2.0)

    def getCenterX(self):
        return self.getCenter().x

    def getCenterY(self):
        return self.getCenter().y

    def getCorners(self):
        return [Point2I(self.getMinX(), self.getMinY()),
                Point2I(self.getMaxX(), self.getMinY()),
                Point2I(self.getMaxX(), self.getMaxY()),
                Point2I(self.getMinX(), self.getMaxY())]

    def getSlices(self):
        return (slice(self._y0, self.getEndY()),
                slice(self._x0, self.getEndX()))

    slices = property(getSlices)

    minX = beginX = property(getMinX)
    minY = beginY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    endX = property(getEndX)
    endY = property(getEndY)
    width = property(getWidth)
    height = property(getHeight)
    area = property(getArea)
    dimensions = property(getDimensions)
    centerX = property(getCenterX)
    centerY = property(getCenterY)

    def isEmpty(self):
        return self._w <= 0 or self._h <= 0

    empty = property(isEmpty)

    def contains(self, *o):
        if len(o) == 2:
            o = (Point2I(*o),)
        o = o[0]
        if isinstance(o, Box2I):
            if o.isEmpty():
                return True
            return (o._x0 >= self._x0 and o._y0 >= self._y0
                    and o.getEndX() <= self.getEndX()
                    and o.getEndY() <= self.getEndY())
        if isinstance(o, _Coord2) and not o._int:
            o = Point2I(o)
        return (self._x0 <= o.x < self.getEndX()
                and self._y0 <= o.y < self.getEndY())

    __contains__ = contains

    def overlaps(self, o):
        return not self.clippedTo(o).isEmpty()

    intersects = overlaps

    def isDisjointFrom(self, o):
        return not self.overlaps(o)

    def clip(self, o):
        x0 = max(self._x0, o._x0)
        y0 = max(self._y0, o._y0)
        x1 = min(self.getEndX(), o.getEndX())
        y1 = min(self.getEndY(), o.getEndY())
        if self.isEmpty() or o.isEmpty():
            self._set(0, 0, 0, 0)
        else:
            self._set(x0, y0, x1 - x0, y1 - y0)

    def clippedTo(self, o):
        b = Box2I(self)
        b.clip(o)
        return b

    def grow(self, b):
        if self.isEmpty():
            return
        if not isinstance(b, Extent2I):
            b = operator.index(b)
            b = Extent2I(b, b)
        self._set(self._x0 - b.x, self._y0 - b.y,
                  self._w + 2*b.x, self._h + 2*b.y)

    def grownBy(self, b):
        n = Box2I(self)
        n.grow(b)
        return n

    dilatedBy = grownBy

    def erodedBy(self, b):
        return self.grownBy(-b)

    def shift(self, e):
        self._set(self._x0 + e.x, self._y0 + e.y, self._w, self._h)

    def shiftedBy(self, e):
        n = Box2I(self)
        n.shift(e)
        return n

    def include(self, o):
        if isinstance(o, Point2D):
            o = Box2I(Point2I(o), Extent2I(1, 1))
        if o.isEmpty():
            return
        if self.isEmpty():
            self._set(o._x0, o._y0, o._w, o._h)
            return
        x0 = min(self._x0, o._x0)
        y0 = min(self._y0, o._y0)
        self._set(x0, y0, max(self.getEndX(), o.getEndX()) - x0,
                  max(self.getEndY(), o.getEndY()) - y0)

    def expandedTo(self, o):
        n = Box2I(self)
        n.include(o)
        return n

    @staticmethod
    def makeCenteredBox(center, size):
        x0 = int(math.floor(center.x - (size.x - 1) / 2 + 0.5))
        y0 = int(math.floor(center.y - (size.y - 1) / 2 + 0.5))
        return Box2I(Point2I(x0, y0), size)

    def __eq__(self, o):
        return isinstance(o, Box2I) and (
            self._x0, self._y0, self._w, self._h) == (
            o._x0, o._y0, o._w, o._h)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self._x0, self._y0, self._w, self._h))

    def __repr__(self):
        return "Box2I(corner=(%d, %d), dimensions=(%d, %d))" % (
            self._x0, self._y0, self._w, self._h)


class Box2D:
    def __init__(self, *args):
        if len(args) == 1 and isinstance(args[0], Box2I):
            b = args[0]
            self._x0, self._y0 = b._x0 - 0.5, b._y0 - 0.5
            self._x1, self._y1 = self._x0 + b._w, self._y0 + b._h
        elif len(args) == 1:
            o = args[0]
            self._x0, self._y0, self._x1, self._y1 = (
                o._x0, o._y0, o._x1, o._y1)
        else:
            a, b = args
            self._x0, self._y0 = float(a.x), float(a.y)
            if isinstance(b, Extent2D):
                self._x1, self._y1 = self._x0 + b.x, self._y0 + b.y
            else:
                self._x1, self._y1 = float(b.x), float(b.y)

    def getMinX(self):
        return self._x0

    def getMinY(self):
        return self._y0

    def getMaxX(self):
        return self._x1

    def getMaxY(self):
        return self._y1

    def getWidth(self):
        return self._x1 - self._x0

    def getHeight(self):
        return self._y1 - self._y0

    def getMin(self):
        return Point2D(self._x0, self._y0)

    def getMax(self):
        return Point2D(self._x1, self._y1)

    def getDimensions(self):
        return Extent2D(self.getWidth(), self.getHeight())

    def getCenter(self):
        return Point2D((self._x0 + self._x1) / 2, (self._y0 + self._y1) / 2)

    def getCenterX(self):
        return self.getCenter().x

    def getCenterY(self):
        return self.getCenter().y

    minX = property(getMinX)
    minY = property(getMinY)
    maxX = property(getMaxX)
    maxY = property(getMaxY)
    width = property(getWidth)
    height = property(getHeight)
    dimensions = property(getDimensions)
    center = property(getCenter)
    centerX = property(getCenterX)
    centerY = property(getCenterY)

    def contains(self, p):
        return self._x0 <= p.x < self._x1 and self._y0 <= p.y < self._y1


# ---------------------------------------------------------------- angles
class AngleUnit:
    def __init__(self, val, name):
        self._val = val
        self.name = name

    def __eq__(self, o):
        return isinstance(o, AngleUnit) and self._val == o._val

    def __hash__(self):
        return hash(self._val)

    def __rmul__(self, x):
        return Angle(x, self)

    def __mul__(self, x):
        return Angle(x, self)


radians = AngleUnit(1.0, "radians")
degrees = AngleUnit(math.pi / 180, "degrees")
hours = AngleUnit(math.pi / 12, "hours")
arcminutes = AngleUnit(math.pi / 180 / 60, "arcminutes")
arcseconds = AngleUnit(math.pi / 180 / 3600, "arcseconds")
milliarcseconds = AngleUnit(math.pi / 180 / 3600e3, "milliarcseconds")
PI = math.pi


class Angle:
    def __init__(self, val=0.0, units=radians):
        if isinstance(val, Angle):
            self._r = val._r
        else:
            self._r = float(val) * units._val

    def asAngularUnits(self, u):
        return self._r / u._val

    def asRadians(self):
        return self._r

    def asDegrees(self):
        return self._r / degrees._val

    def asHours(self):
        return self._r / hours._val

    def asArcminutes(self):
        return self._r / arcminutes._val

    def asArcseconds(self):
        return self._r / arcseconds._val

    def asMilliarcseconds(self):
        return self._r / milliarcseconds._val

    def __add__(self, o):
        return Angle(self._r + o._r)

    def __sub__(self, o):
        return Angle(self._r - o._r)

    def __neg__(self):
        return Angle(-self._r)

    def __mul__(self, f):
        return Angle(self._r * f)

    __rmul__ = __mul__

    def __truediv__(self, f):
        if isinstance(f, Angle):
            return self._r / f._r
        return Angle(self._r / f)

    def __float__(self):
        return self._r

    def __eq__(self, o):
        return isinstance(o, Angle) and self._r == o._r

    def __lt__(self, o):
        return self._r < o._r

    def __gt__(self, o):
        return self._r > o._r

    def __hash__(self):
        return hash(self._r)

    def wrap(self):
        return Angle(self._r % (2 * math.pi))

    def __repr__(self):
        return "Angle(%r, degrees)" % self.asDegrees()


class SpherePoint:
    def __init__(self, *args):
        if len(args) == 0:
            self._lon = self._lat = math.nan
        elif len(args) == 1:
            self._lon, self._lat = args[0]._lon, args[0]._lat
        elif len(args) == 2:
            self._lon, self._lat = args[0].asRadians(), args[1].asRadians()
        else:
            self._lon = float(args[0]) * args[2]._val
            self._lat = float(args[1]) * args[2]._val
        if math.isfinite(self._lon):
            self._lon %= 2 * math.pi

    def getRa(self):
        return Angle(self._lon)

    def getDec(self):
        return Angle(self._lat)

    getLongitude = getRa
    getLatitude = getDec

    def isFinite(self):
        return math.isfinite(self._lon) and math.isfinite(self._lat)

    def getPosition(self, unit=radians):
        return Point2D(self._lon / unit._val, self._lat / unit._val)

    def __getitem__(self, i):
        return (self.getRa(), self.getDec())[i]

    def __iter__(self):
        return iter((self.getRa(), self.getDec()))

    def separation(self, o):
        dl = (o._lon - self._lon)
        s = (math.sin((o._lat - self._lat)/2)**2
             + math.cos(self._lat)*math.cos(o._lat)*math.sin(dl/2)**2)
        return Angle(2*math.asin(min(1.0, math.sqrt(s))))

    def getTangentPlaneOffset(self, o):
        a, d = o._lon, o._lat
        a0, d0 = self._lon, self._lat
        c = (math.sin(d0)*math.sin(d)
             + math.cos(d0)*math.cos(d)*math.cos(a - a0))
        xi = math.cos(d)*math.sin(a - a0)/c
        eta = (math.cos(d0)*math.sin(d)
               - math.sin(d0)*math.cos(d)*math.cos(a - a0))/c
        return (Angle(xi), Angle(eta))

    def __eq__(self, o):
        return (isinstance(o, SpherePoint) and self._lon == o._lon
                and self._lat == o._lat)

    def __hash__(self):
        return hash((self._lon, self._lat))

    def __repr__(self):
        return "SpherePoint(%r*degrees, %r*degrees)" % (
            self.getRa().asDegrees(), self.getDec().asDegrees())


class LinearTransform:
    def __init__(self, matrix=None):
        self._m = np.array(np.eye(2) if matrix is None else matrix,
                           dtype=float)

    def getMatrix(self):
        return self._m.copy()

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self._m[k]
        return self._m.ravel(order="F")[k]

    def computeDeterminant(self):
        return float(np.linalg.det(self._m))

    def inverted(self):
        return LinearTransform(np.linalg.inv(self._m))

    def __call__(self, p):
        v = self._m @ np.array([p.x, p.y])
        return type(p)(*v) if not p._int else Point2D(*v)

    XX, XY, YX, YY = 0, 2, 1, 3


class AffineTransform:
    XX, XY, YX, YY, X, Y = 0, 2, 1, 3, 4, 5

    def __init__(self, linear=None, translation=None):
        if isinstance(linear, LinearTransform):
            self._l = linear
        else:
            self._l = LinearTransform(linear)
        self._t = translation or Extent2D(0, 0)

    def getLinear(self):
        return self._l

    def getTranslation(self):
        return self._t

    def getMatrix(self):
        m = np.eye(3)
        m[:2, :2] = self._l._m
        m[:2, 2] = list(self._t)
        return m

    def __call__(self, p):
        return Point2D(*(self._l._m @ np.array([p.x, p.y])
                         + np.array(list(self._t))))

    def inverted(self):
        li = self._l.inverted()
        t = -(li._m @ np.array(list(self._t)))
        return AffineTransform(li, Extent2D(*t))
