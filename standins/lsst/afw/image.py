"""stand-in for lsst.afw.image"""
import copy
import enum
import numpy as np
from ..geom import Point2I, Extent2I, Box2I, Point2D
from ..pex.exceptions import LengthError, InvalidParameterError


class ImageOrigin(enum.Enum):
    PARENT = 0
    LOCAL = 1


PARENT = ImageOrigin.PARENT
LOCAL = ImageOrigin.LOCAL


class _Plane:
    """two dimensional pixel array with an origin"""
    _dtype = None

    def _init(self, args, kw):
        xy0 = kw.pop("xy0", None)
        deep = kw.pop("deep", False)
        dtype = self._dtype
        if "array" in kw:
            args = (kw.pop("array"),) + tuple(args)
        if "bbox" in kw:
            args = tuple(args) + (kw.pop("bbox"),)
        if "initialValue" in kw:
            init = kw.pop("initialValue")
        else:
            init = 0
        if kw:
            raise TypeError("incompatible constructor arguments %r" % (kw,))
        self._xy0 = Point2I(xy0) if xy0 is not None else Point2I(0, 0)
        if not args:
            self._arr = np.zeros((0, 0), dtype=dtype)
        elif isinstance(args[0], _Plane):
            src = args[0]
            box = None
            for a in args[1:]:
                if isinstance(a, Box2I):
                    box = a
                elif isinstance(a, bool):
                    deep = a
            if box is not None:
                src = src[box]
            self._xy0 = Point2I(src._xy0)
            if deep or src._arr.dtype != dtype:
                self._arr = src._arr.astype(dtype, copy=True)
            else:
                self._arr = src._arr
        elif isinstance(args[0], np.ndarray):
            arr = args[0]
            for a in args[1:]:
                if isinstance(a, bool):
                    deep = a
                elif isinstance(a, Point2I):
                    self._xy0 = Point2I(a)
            if arr.ndim != 2:
                raise TypeError("need a two dimensional array")
            if arr.dtype != dtype:
                raise TypeError(
                    "incompatible constructor arguments: %s array for %s" % (
                        arr.dtype, type(self).__name__))
            self._arr = arr.copy() if deep else arr
        elif isinstance(args[0], Box2I):
            b = args[0]
            if len(args) > 1:
                init = args[1]
            self._xy0 = b.getMin()
            self._arr = np.full((b.getHeight(), b.getWidth()), init,
                                dtype=dtype)
        elif isinstance(args[0], Extent2I):
            if len(args) > 1:
                init = args[1]
            self._arr = np.full((args[0].y, args[0].x), init, dtype=dtype)
        else:
            if len(args) > 2:
                init = args[2]
            self._arr = np.full((int(args[1]), int(args[0])), init,
                                dtype=dtype)

    @property
    def array(self):
        return self._arr

    @array.setter
    def array(self, value):
        self._arr[...] = value

    def getArray(self):
        return self._arr

    @property
    def dtype(self):
        return self._arr.dtype

    def getBBox(self, origin=PARENT):
        if origin is LOCAL:
            return Box2I(Point2I(0, 0), self.getDimensions())
        return Box2I(Point2I(self._xy0), self.getDimensions())

    def getDimensions(self):
        return Extent2I(self._arr.shape[1], self._arr.shape[0])

    def getWidth(self):
        return self._arr.shape[1]

    def getHeight(self):
        return self._arr.shape[0]

    def getXY0(self):
        return Point2I(self._xy0)

    def getX0(self):
        return self._xy0.x

    def getY0(self):
        return self._xy0.y

    def setXY0(self, *a):
        self._xy0 = Point2I(*a)

    width = property(getWidth)
    height = property(getHeight)

    def _sub(self, box, origin=PARENT):
        full = self.getBBox(origin)
        if not full.contains(box):
            raise LengthError("Box %r does not fit in image %r" % (box, full))
        o = full.getMin()
        y0, x0 = box.getBeginY() - o.y, box.getBeginX() - o.x
        new = type(self).__new__(type(self))
        new._arr = self._arr[y0:y0 + box.getHeight(), x0:x0 + box.getWidth()]
        new._xy0 = Point2I(self._xy0.x + x0, self._xy0.y + y0)
        return new

    def _idx(self, p, origin=PARENT):
        o = self._xy0 if origin is PARENT else Point2I(0, 0)
        r, c = p.y - o.y, p.x - o.x
        if not (0 <= r < self._arr.shape[0] and 0 <= c < self._arr.shape[1]):
            raise LengthError("position %r is outside the image" % (p,))
        return r, c

    def __getitem__(self, k):
        origin = PARENT
        if isinstance(k, tuple) and len(k) and isinstance(
                k[-1], ImageOrigin):
            origin = k[-1]
            k = k[0] if len(k) == 2 else k[:-1]
        if isinstance(k, Box2I):
            return self._sub(k, origin)
        if isinstance(k, Point2I):
            return self._arr[self._idx(k, origin)].item()
        if isinstance(k, tuple) and len(k) == 2 and all(
                isinstance(v, (int, np.integer)) for v in k):
            return self._arr[self._idx(Point2I(*k), origin)].item()
        raise NotImplementedError("stand-in: image index %r" % (k,))

    def __setitem__(self, k, v):
        if isinstance(v, _Plane):
            v = v._arr
        if isinstance(k, Box2I):
            self._sub(k)._arr[...] = v
        elif isinstance(k, Point2I):
            self._arr[self._idx(k)] = v
        elif k is Ellipsis or k == slice(None):
            self._arr[...] = v
        else:
            raise NotImplementedError("stand-in: image index %r" % (k,))

    def subset(self, box, origin=PARENT):
        return self._sub(box, origin)

    def assign(self, rhs, bbox=None, origin=PARENT):
        dst = self if bbox is None else self._sub(bbox, origin)
        dst._arr[...] = rhs._arr

    def set(self, value):
        self._arr[...] = value

    def _copy(self, deep):
        new = type(self).__new__(type(self))
        new._arr = self._arr.copy() if deep else self._arr
        new._xy0 = Point2I(self._xy0)
        return new

    def clone(self):
        return self._copy(True)

    def __deepcopy__(self, memo):
        return self._copy(True)

    @staticmethod
    def _val(o):
        return o._arr if isinstance(o, _Plane) else o

    def __iadd__(self, o):
        self._arr += self._val(o)
        return self

    def __isub__(self, o):
        self._arr -= self._val(o)
        return self

    def __imul__(self, o):
        self._arr *= self._val(o)
        return self

    def __itruediv__(self, o):
        self._arr /= self._val(o)
        return self


class Image(_Plane):
    def __new__(cls, *args, **kw):
        if cls is Image:
            dt = kw.get("dtype")
            if dt is None:
                for a in args:
                    if isinstance(a, (np.ndarray, _Plane)):
                        dt = a.dtype
                        break
                else:
                    a = kw.get("array")
                    dt = np.float32 if a is None else a.dtype
            cls = _IMAGES[np.dtype(dt)]
        return object.__new__(cls)

    def __init__(self, *args, **kw):
        dt = kw.pop("dtype", None)
        if dt is not None and np.dtype(dt) != np.dtype(self._dtype):
            raise TypeError("dtype mismatch")
        self._init(args, kw)

    def convertF(self):
        return ImageF(self, deep=True)

    def convertD(self):
        return ImageD(self, deep=True)


class ImageF(Image):
    _dtype = np.float32


class ImageD(Image):
    _dtype = np.float64


class ImageI(Image):
    _dtype = np.int32


class ImageU(Image):
    _dtype = np.uint16


class ImageL(Image):
    _dtype = np.uint64


class DecoratedImageF(ImageF):
    pass


_IMAGES = {np.dtype(c._dtype): c for c in (
    ImageF, ImageD, ImageI, ImageU, ImageL)}

_DEFAULT_PLANES = ["BAD", "SAT", "INTRP", "CR", "EDGE", "DETECTED",
                   "DETECTED_NEGATIVE", "SUSPECT", "NO_DATA"]


class Mask(_Plane):
    _dtype = np.int32
    _planes = {n: i for i, n in enumerate(_DEFAULT_PLANES)}

    def __new__(cls, *a, **k):
        return object.__new__(Mask)

    def __init__(self, *args, **kw):
        kw.pop("dtype", None)
        kw.pop("planeDefs", None)
        self._init(args, kw)

    @staticmethod
    def addMaskPlane(name):
        p = Mask._planes
        if name in p:
            return p[name]
        used = set(p.values())
        for b in range(31):
            if b not in used:
                p[name] = b
                return b
        raise LengthError("Max number of planes (31) already used")

    @staticmethod
    def removeMaskPlane(name):
        if name not in Mask._planes:
            raise InvalidParameterError("Plane %s doesn't exist" % name)
        del Mask._planes[name]

    def removeAndClearMaskPlane(self, name, removeFromDefault=False):
        self.clearMaskPlane(Mask._planes[name])
        if removeFromDefault:
            del Mask._planes[name]

    @staticmethod
    def getMaskPlane(name):
        if name not in Mask._planes:
            raise InvalidParameterError("Invalid mask plane name: %s" % name)
        return Mask._planes[name]

    @staticmethod
    def getPlaneBitMask(name):
        if isinstance(name, (list, tuple)):
            v = 0
            for n in name:
                v |= Mask.getPlaneBitMask(n)
            return v
        return 1 << Mask.getMaskPlane(name)

    def getMaskPlaneDict(self=None):
        return dict(Mask._planes)

    def clearMaskPlane(self, plane):
        self._arr &= ~np.int32(1 << plane)

    def clearAllMaskPlanes(self):
        self._arr[...] = 0

    def __ior__(self, o):
        self._arr |= self._val(o)
        return self

    def __iand__(self, o):
        self._arr &= self._val(o)
        return self


MaskX = Mask
MaskPixel = np.int32


def _reset_planes(extra=()):
    """harness hook: default planes, then the named ones in that order"""
    Mask._planes.clear()
    Mask._planes.update({n: i for i, n in enumerate(_DEFAULT_PLANES)})
    for n in extra:
        Mask.addMaskPlane(n)


class MaskedImage:
    _dtype = None

    def __new__(cls, *args, **kw):
        if cls is MaskedImage:
            dt = kw.get("dtype")
            if dt is None:
                a = args[0] if args else kw.get("image")
                dt = getattr(a, "dtype", np.float32)
            cls = {np.dtype(np.float32): MaskedImageF,
                   np.dtype(np.float64): MaskedImageD}[np.dtype(dt)]
        return object.__new__(cls)

    def __init__(self, *args, **kw):
        kw.pop("dtype", None)
        deep = kw.pop("deep", False)
        I = _IMAGES[np.dtype(self._dtype)]  # noqa
        args = list(args)
        for k in ("image", "mask", "variance"):
            if k in kw:
                args.append(kw.pop(k))
        if kw:
            raise TypeError("incompatible constructor arguments %r" % (kw,))
        a = args[0] if args else Extent2I(0, 0)
        if isinstance(a, MaskedImage):
            for v in args[1:]:
                if isinstance(v, Box2I):
                    a = a[v]
                elif isinstance(v, bool):
                    deep = v
            self._image = I(a.image, deep=deep)
            self._mask = Mask(a.mask, deep=deep)
            self._variance = ImageF(a.variance, deep=deep)
        elif isinstance(a, Image):
            self._image = I(a)
            box = a.getBBox()
            self._mask = (args[1] if len(args) > 1 and args[1] is not None
                          else Mask(box))
            self._variance = (
                args[2] if len(args) > 2 and args[2] is not None
                else ImageF(box))
            for p in (self._mask, self._variance):
                if p._arr.shape != a._arr.shape:
                    raise LengthError("planes differ in size")
        else:
            self._image = I(*args)
            self._mask = Mask(self._image.getBBox())
            self._variance = ImageF(self._image.getBBox())

    image = property(lambda s: s._image)
    mask = property(lambda s: s._mask)
    variance = property(lambda s: s._variance)

    @image.setter
    def image(self, v):
        self._image.assign(v)

    @mask.setter
    def mask(self, v):
        self._mask.assign(v)

    @variance.setter
    def variance(self, v):
        self._variance.assign(v)

    def getImage(self):
        return self._image

    def getMask(self):
        return self._mask

    def getVariance(self):
        return self._variance

    @property
    def array(self):
        raise AttributeError("MaskedImage has no attribute 'array'")

    @property
    def dtype(self):
        return self._image.dtype

    def getBBox(self, origin=PARENT):
        return self._image.getBBox(origin)

    def getDimensions(self):
        return self._image.getDimensions()

    def getWidth(self):
        return self._image.getWidth()

    def getHeight(self):
        return self._image.getHeight()

    def getXY0(self):
        return self._image.getXY0()

    def getX0(self):
        return self._image.getX0()

    def getY0(self):
        return self._image.getY0()

    width = property(getWidth)
    height = property(getHeight)

    def setXY0(self, *a):
        for p in (self._image, self._mask, self._variance):
            p.setXY0(*a)

    def __getitem__(self, k):
        new = type(self).__new__(type(self))
        new._image = self._image[k]
        new._mask = self._mask[k]
        new._variance = self._variance[k]
        return new

    subset = __getitem__

    def assign(self, rhs, bbox=None, origin=PARENT):
        self._image.assign(rhs.image, bbox, origin)
        self._mask.assign(rhs.mask, bbox, origin)
        self._variance.assign(rhs.variance, bbox, origin)

    def __setitem__(self, k, v):
        if isinstance(v, MaskedImage):
            self._image[k] = v.image
            self._mask[k] = v.mask
            self._variance[k] = v.variance
        else:
            raise NotImplementedError("stand-in: MaskedImage assignment")

    def clone(self):
        return type(self)(self, deep=True)

    def __deepcopy__(self, memo):
        return self.clone()

    def __isub__(self, o):
        if isinstance(o, MaskedImage):
            self._image -= o.image
            self._mask |= o.mask
            self._variance += o.variance
        else:
            self._image -= o
        return self

    def __iadd__(self, o):
        if isinstance(o, MaskedImage):
            self._image += o.image
            self._mask |= o.mask
            self._variance += o.variance
        else:
            self._image += o
        return self


class MaskedImageF(MaskedImage):
    _dtype = np.float32


class MaskedImageD(MaskedImage):
    _dtype = np.float64


class FilterLabel:
    def __init__(self, band=None, physical=None):
        self._band = band
        self._physical = physical

    @property
    def bandLabel(self):
        if self._band is None:
            raise LogicErrorNoBand()
        return self._band

    @property
    def physicalLabel(self):
        return self._physical

    def hasBandLabel(self):
        return self._band is not None

    @classmethod
    def fromBand(cls, band):
        return cls(band=band)

    @classmethod
    def fromBandPhysical(cls, band, physical):
        return cls(band, physical)

    def __eq__(self, o):
        return (isinstance(o, FilterLabel) and self._band == o._band
                and self._physical == o._physical)

    def __hash__(self):
        return hash((self._band, self._physical))

    def __repr__(self):
        return "FilterLabel(band=%r)" % self._band


class LogicErrorNoBand(Exception):
    pass


class PhotoCalib:
    def __init__(self, calibrationMean=1.0, *a, **k):
        self.mean = calibrationMean

    def getCalibrationMean(self):
        return self.mean

    def instFluxToMagnitude(self, *a):
        raise NotImplementedError("stand-in: PhotoCalib")


class Exposure:
    _dtype = None

    def __new__(cls, *args, **kw):
        if cls is Exposure:
            a = args[0] if args else None
            dt = kw.get("dtype") or getattr(a, "dtype", np.float32)
            cls = {np.dtype(np.float32): ExposureF,
                   np.dtype(np.float64): ExposureD}[np.dtype(dt)]
        return object.__new__(cls)

    def __init__(self, *args, **kw):
        kw.pop("dtype", None)
        deep = kw.pop("deep", False)
        M = {np.dtype(np.float32): MaskedImageF,
             np.dtype(np.float64): MaskedImageD}[np.dtype(self._dtype)]
        args = list(args)
        for k in ("maskedImage", "exposure", "bbox", "dimensions"):
            if k in kw:
                args.append(kw.pop(k))
        if kw:
            raise TypeError("incompatible constructor arguments %r" % (kw,))
        self._info = {}
        self._meta = {}
        a = args[0] if args else Extent2I(0, 0)
        rest = args[1:]
        if isinstance(a, Exposure):
            src = a
            for v in rest:
                if isinstance(v, Box2I):
                    src = src[v]
                elif isinstance(v, bool):
                    deep = v
            same = np.dtype(self._dtype) == src.dtype
            if not same:
                deep = True
            self._mi = M(src._mi, deep=deep)
            self._info = dict(src._info)
            self._meta = dict(src._meta) if deep else src._meta
        elif isinstance(a, MaskedImage):
            self._mi = a if isinstance(a, M) else M(a, deep=True)
        else:
            ints = [v for v in args if not _isinfo(v)]
            self._mi = M(*ints)
        for v in rest:
            if type(v).__name__ == "SkyWcs":
                self._info["wcs"] = v

    # planes
    maskedImage = property(lambda s: s._mi)

    @maskedImage.setter
    def maskedImage(self, v):
        self._mi.assign(v)

    image = property(lambda s: s._mi.image)
    mask = property(lambda s: s._mi.mask)
    variance = property(lambda s: s._mi.variance)

    @image.setter
    def image(self, v):
        self._mi.image.assign(v)

    @mask.setter
    def mask(self, v):
        self._mi.mask.assign(v)

    @variance.setter
    def variance(self, v):
        self._mi.variance.assign(v)

    def getImage(self):
        return self.image

    def getMask(self):
        return self.mask

    def getVariance(self):
        return self.variance

    def getMaskedImage(self):
        return self._mi

    def setMaskedImage(self, mi):
        self._mi = mi

    @property
    def dtype(self):
        return self._mi.dtype

    def getBBox(self, origin=PARENT):
        return self._mi.getBBox(origin)

    def getDimensions(self):
        return self._mi.getDimensions()

    def getWidth(self):
        return self._mi.getWidth()

    def getHeight(self):
        return self._mi.getHeight()

    width = property(getWidth)
    height = property(getHeight)

    def getXY0(self):
        return self._mi.getXY0()

    def getX0(self):
        return self._mi.getX0()

    def getY0(self):
        return self._mi.getY0()

    def setXY0(self, *a):
        self._mi.setXY0(*a)

    # components
    def getMetadata(self):
        return self._meta

    metadata = property(getMetadata)

    def setMetadata(self, m):
        self._meta = m

    def hasWcs(self):
        return self._info.get("wcs") is not None

    def hasPsf(self):
        return self._info.get("psf") is not None

    def getInfo(self):
        return self

    info = property(getInfo)

    def __getitem__(self, k):
        new = type(self).__new__(type(self))
        new._mi = self._mi[k]
        new._info = dict(self._info)
        new._meta = self._meta
        return new

    subset = __getitem__

    def getCutout(self, center, size):
        raise NotImplementedError("stand-in: getCutout")

    def clone(self):
        return type(self)(self, deep=True)

    def __deepcopy__(self, memo):
        return self.clone()

    def convertF(self):
        return ExposureF(self, deep=True)

    def convertD(self):
        return ExposureD(self, deep=True)

    def __repr__(self):
        return "%s(%r)" % (type(self).__name__, self.getBBox())


def _isinfo(v):
    return type(v).__name__ == "SkyWcs"


def _component(name, key):
    def get(self):
        return self._info.get(key)

    def set_(self, v):
        self._info[key] = v
    setattr(Exposure, "get" + name, get)
    setattr(Exposure, "set" + name, set_)
    setattr(Exposure, key if key != "filter" else "filter",
            property(get, set_))


for _n, _k in (("Wcs", "wcs"), ("Psf", "psf"), ("Filter", "filter"),
               ("Detector", "detector"), ("PhotoCalib", "photoCalib"),
               ("VisitInfo", "visitInfo"), ("ApCorrMap", "apCorrMap"),
               ("CoaddInputs", "coaddInputs"),
               ("TransmissionCurve", "transmissionCurve")):
    _component(_n, _k)


class ExposureF(Exposure):
    _dtype = np.float32


class ExposureD(Exposure):
    _dtype = np.float64


def makeExposure(mi, wcs=None):
    cls = ExposureF if mi.dtype == np.float32 else ExposureD
    e = cls(mi)
    if wcs is not None:
        e.setWcs(wcs)
    return e


def makeMaskedImage(image, mask=None, variance=None):
    return MaskedImage(image, mask, variance)


# ------------------------------------------------------------- multi-band
class _Multi:
    def _band_index(self, b):
        return self._bands.index(b)

    @property
    def bands(self):
        return self._bands

    @property
    def singles(self):
        return self._singles

    def __len__(self):
        return len(self._bands)

    def __iter__(self):
        return iter(self._singles)

    def getBBox(self, origin=PARENT):
        return self._singles[0].getBBox(origin)

    def getXY0(self):
        return self.getBBox().getMin()

    @property
    def yx0(self):
        m = self.getBBox().getMin()
        return (m.y, m.x)

    @property
    def width(self):
        return self.getBBox().getWidth()

    @property
    def height(self):
        return self.getBBox().getHeight()


def _key(k, bands):
    """band selection and spatial box of a multi-band index"""
    box = None
    if isinstance(k, tuple):
        if len(k) == 2 and (isinstance(k[1], Box2I)):
            k, box = k
        elif len(k) == 1:
            k = k[0]
        else:
            raise NotImplementedError("stand-in: multi-band index %r" % (k,))
    if isinstance(k, str):
        if k not in bands:
            raise IndexError("Band '%s' not found in %s" % (k, bands))
        return bands.index(k), box
    if isinstance(k, (int, np.integer)):
        return int(k), box
    if isinstance(k, slice):
        def at(v):
            return bands.index(v) if isinstance(v, str) else v
        return list(range(len(bands)))[slice(
            at(k.start), at(k.stop), at(k.step))], box
    if isinstance(k, (list, tuple)):
        return [bands.index(v) if isinstance(v, str) else v for v in k], box
    raise NotImplementedError("stand-in: multi-band index %r" % (k,))


class MultibandImage(_Multi):
    _single = Image

    def __init__(self, bands, array, bbox=None, singleType=None):
        array = np.asarray(array)
        self._bands = tuple(bands)
        if bbox is None:
            bbox = Box2I(Point2I(0, 0),
                         Extent2I(array.shape[2], array.shape[1]))
        if array.shape != (len(self._bands), bbox.getHeight(),
                           bbox.getWidth()):
            raise ValueError("Bounding box does not match the array shape")
        self._array = array
        self._bbox = bbox
        self._build()

    def _build(self):
        self._singles = [
            self._make(self._array[i]) for i in range(len(self._bands))]

    def _make(self, arr):
        return Image(arr, xy0=self._bbox.getMin(), dtype=arr.dtype)

    @property
    def array(self):
        return self._array

    @array.setter
    def array(self, v):
        self._array[...] = v

    def getBBox(self, origin=PARENT):
        return Box2I(self._bbox)

    @classmethod
    def fromImages(cls, bands, singles):
        return cls.fromSingles(bands, singles)

    @classmethod
    def fromSingles(cls, bands, singles):
        arr = np.array([s.array for s in singles],
                       dtype=singles[0].array.dtype)
        return cls(bands, arr, singles[0].getBBox())

    fromMasks = fromImages

    def __getitem__(self, k):
        sel, box = _key(k, self._bands)
        if isinstance(sel, int):
            s = self._singles[sel]
            return s[box] if box is not None else s
        singles = [self._singles[j] for j in sel]
        if box is not None:
            singles = [s[box] for s in singles]
        return type(self).fromSingles([self._bands[j] for j in sel], singles)

    def clone(self, deep=True):
        return type(self)(
            self._bands, self._array.copy() if deep else self._array,
            self._bbox)


class MultibandMask(MultibandImage):
    def _make(self, arr):
        return Mask(arr, xy0=self._bbox.getMin())

    def getMaskPlane(self, n):
        return Mask.getMaskPlane(n)

    def getPlaneBitMask(self, n):
        return Mask.getPlaneBitMask(n)


class _Triple(_Multi):
    def _setup(self, bands, image, mask, variance):
        self._bands = tuple(bands)
        self._image, self._mask, self._variance = image, mask, variance
        singles = []
        for i in range(len(self._bands)):
            im = image.singles[i]
            mi = MaskedImage.__new__(
                MaskedImageF if im.dtype == np.float32 else MaskedImageD)
            mi._image = im
            mi._mask = mask.singles[i]
            mi._variance = variance.singles[i]
            singles.append(mi)
        return singles

    image = property(lambda s: s._image)
    mask = property(lambda s: s._mask)
    variance = property(lambda s: s._variance)

    @classmethod
    def _planes(cls, bands, singles):
        return (MultibandImage.fromSingles(bands, [s.image for s in singles]),
                MultibandMask.fromSingles(bands, [s.mask for s in singles]),
                MultibandImage.fromSingles(
                    bands, [s.variance for s in singles]))


class MultibandMaskedImage(_Triple):
    def __init__(self, bands, image, mask, variance):
        self._singles = self._setup(bands, image, mask, variance)

    @classmethod
    def fromImages(cls, bands, singles):
        return cls(bands, *cls._planes(bands, singles))

    def __getitem__(self, k):
        sel, box = _key(k, self._bands)
        if isinstance(sel, int):
            s = self._singles[sel]
            return s[box] if box is not None else s
        raise NotImplementedError("stand-in: MultibandMaskedImage slice")


class MultibandExposure(_Triple):
    def __init__(self, bands, image, mask, variance, psfs=None):
        self._singles = []
        for mi in self._setup(bands, image, mask, variance):
            cls = ExposureF if mi.dtype == np.float32 else ExposureD
            self._singles.append(cls(mi))
        if psfs is not None:
            for p, s in zip(psfs, self._singles):
                s.setPsf(p)

    @classmethod
    def fromExposures(cls, bands, singles):
        psfs = [s.getPsf() for s in singles]
        boxes = set(s.getBBox() for s in singles)
        if len(boxes) != 1:
            raise ValueError("exposures have different bounding boxes")
        if len(bands) != len(singles):
            raise ValueError("different number of bands and exposures")
        return cls(bands, *cls._planes(bands, singles), psfs=psfs)

    def __getitem__(self, k):
        sel, box = _key(k, self._bands)
        if isinstance(sel, int):
            s = self._singles[sel]
            return s[box] if box is not None else s
        singles = [self._singles[j] for j in sel]
        if box is not None:
            singles = [s[box] for s in singles]
        return type(self).fromExposures([self._bands[j] for j in sel],
                                        singles)

    def clone(self, deep=True):
        """as in the stack, PSFs, filters and wcs are not carried over"""
        return type(self)(
            self._bands, self._image.clone(deep), self._mask.clone(deep),
            self._variance.clone(deep))

    def getPsfs(self):
        return [s.getPsf() for s in self._singles]

    def computePsfKernelImage(self, position=None):
        raise NotImplementedError("stand-in: computePsfKernelImage")


def _copy_unused():
    return copy, Point2D
