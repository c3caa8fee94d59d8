"""stand-in for lsst.afw.detection.multiband"""
import numpy as np
from . import makeHeavyFootprint, HeavyFootprint
from ...geom import Box2I
from .. import image as afw_image


class MultibandFootprint:
    def __init__(self, bands, singles):
        self._bands = tuple(bands)
        self._singles = list(singles)

    @property
    def bands(self):
        return self._bands

    @property
    def singles(self):
        return self._singles

    @property
    def footprint(self):
        return self._singles[0]

    def getBBox(self):
        return self._singles[0].getBBox()

    def getSpans(self):
        return self._singles[0].getSpans()

    spans = property(getSpans)

    @property
    def peaks(self):
        return self._singles[0].getPeaks()

    getPeaks = peaks.fget

    @classmethod
    def fromImages(cls, bands, image, mask=None, variance=None,
                   footprint=None, xy0=None, thresh=0, peaks=None):
        if footprint is None:
            raise NotImplementedError("stand-in: fromImages, no footprint")
        singles = []
        for b in bands:
            im = image[b]
            mi = afw_image.MaskedImage(
                afw_image.Image(im.array, xy0=im.getXY0(), dtype=im.dtype))
            singles.append(makeHeavyFootprint(footprint, mi))
        return cls(bands, singles)

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._singles[self._bands.index(k)]
        if isinstance(k, (int, np.integer)):
            return self._singles[k]
        raise NotImplementedError("stand-in: MultibandFootprint index")

    def __len__(self):
        return len(self._bands)

    def __iter__(self):
        return iter(self._singles)

    def getImage(self, bbox=None, fill=np.nan, imageType=None):
        bbox = bbox or self.getBBox()
        arr = np.array([s.extractImage(fill, bbox).array
                        for s in self._singles])
        return afw_image.MultibandImage(self._bands, arr, bbox)


def heavyFootprintToImage(heavy, fill=np.nan, bbox=None, imageType=None):
    return heavy.extractImage(fill, bbox, imageType)


def _unused():
    return HeavyFootprint, Box2I
