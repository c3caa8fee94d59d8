"""stand-in for lsst.afw.detection"""
import numpy as np
from ...geom import Point2I, Point2D, Box2I
from ..geom import SpanSet
from .. import image as afw_image


class PeakRecord:
    def __init__(self, fx, fy, value, id_=0):
        self._fx, self._fy = float(fx), float(fy)
        self._ix, self._iy = int(fx), int(fy)
        self._value = float(value)
        self._id = id_

    def getIx(self):
        return self._ix

    def getIy(self):
        return self._iy

    def getFx(self):
        return self._fx

    def getFy(self):
        return self._fy

    def getI(self):
        return Point2I(self._ix, self._iy)

    def getF(self):
        return Point2D(self._fx, self._fy)

    getCentroid = getF

    def getPeakValue(self):
        return self._value

    def getId(self):
        return self._id

    def get(self, name):
        return {"i_x": self._ix, "i_y": self._iy, "f_x": self._fx,
                "f_y": self._fy, "peakValue": self._value,
                "id": self._id}[name]

    __getitem__ = get


class PeakCatalog(list):
    pass


class Footprint:
    def __init__(self, spans=None, region=None, peaks=None):
        self._spans = spans if spans is not None else SpanSet()
        self._peaks = PeakCatalog(peaks or [])
        self._region = region

    def getSpans(self):
        return self._spans

    def setSpans(self, s):
        self._spans = s

    spans = property(getSpans, setSpans)

    def getPeaks(self):
        return self._peaks

    peaks = property(getPeaks)

    def setPeakCatalog(self, p):
        self._peaks = PeakCatalog(p)

    def addPeak(self, fx, fy, height):
        p = PeakRecord(fx, fy, height, len(self._peaks) + 1)
        self._peaks.append(p)
        return p

    def getBBox(self):
        return self._spans.getBBox()

    def getArea(self):
        return self._spans.getArea()

    def getCentroid(self):
        return self._spans.computeCentroid()

    def contains(self, p):
        return self._spans.contains(p)

    def getRegion(self):
        return self._region

    def isHeavy(self):
        return False

    def clipTo(self, box):
        self._spans = self._spans.clippedTo(box)


class HeavyFootprint(Footprint):
    """pixel values on the spans of a footprint; not indexable"""
    _dtype = np.float32

    def __init__(self, foot, mi=None):
        super().__init__(foot.getSpans(), peaks=foot.getPeaks())
        n = self._spans.getArea()
        if mi is None:
            self._im = np.zeros(n, dtype=self._dtype)
            self._mk = np.zeros(n, dtype=np.int32)
            self._va = np.zeros(n, dtype=np.float32)
        else:
            r, c = self._spans._local(mi.getBBox())
            self._im = mi.image.array[r, c].astype(self._dtype)
            self._mk = mi.mask.array[r, c].copy()
            self._va = mi.variance.array[r, c].copy()

    def isHeavy(self):
        return True

    def getImageArray(self):
        return self._im

    def getMaskArray(self):
        return self._mk

    def getVarianceArray(self):
        return self._va

    def insert(self, target):
        r, c = self._spans._local(target.getBBox())
        if isinstance(target, afw_image.MaskedImage):
            target.image.array[r, c] = self._im
            target.mask.array[r, c] = self._mk
            target.variance.array[r, c] = self._va
        else:
            target.array[r, c] = self._im

    def addTo(self, image):
        r, c = self._spans._local(image.getBBox())
        image.array[r, c] += self._im

    def subtractFrom(self, image):
        r, c = self._spans._local(image.getBBox())
        image.array[r, c] -= self._im

    def extractImage(self, fill=0, bbox=None, imageType=None):
        bbox = bbox or self.getBBox()
        cls = (afw_image.ImageF if self._dtype == np.float32
               else afw_image.ImageD)
        im = (imageType or cls)(bbox)
        im.array[...] = fill
        s = self._spans.clippedTo(bbox)
        full = self._spans.unflatten(self._im)
        b = self.getBBox()
        if s.getArea():
            im.array[s._y - bbox.getBeginY(), s._x - bbox.getBeginX()] = full[
                s._y - b.getBeginY(), s._x - b.getBeginX()]
        return im

    def dot(self, o):
        a = self.extractImage(bbox=self.getBBox())
        b = o.extractImage(bbox=self.getBBox())
        return float((a.array*b.array).sum())


class HeavyFootprintF(HeavyFootprint):
    _dtype = np.float32


class HeavyFootprintD(HeavyFootprint):
    _dtype = np.float64


def makeHeavyFootprint(foot, mi, ctrl=None):
    cls = HeavyFootprintF if mi.dtype == np.float32 else HeavyFootprintD
    return cls(foot, mi)


class FootprintSet:
    def __init__(self, *a, **k):
        raise NotImplementedError("stand-in: FootprintSet")


def _unused():
    return Box2I


from . import multiband  # noqa
