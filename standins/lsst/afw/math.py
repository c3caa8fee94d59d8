"""stand-in for lsst.afw.math"""


class FixedKernel:
    def __init__(self, image):
        from .image import ImageD
        if not isinstance(image, ImageD):
            raise TypeError("FixedKernel needs an ImageD")
        self._image = image.clone()

    def getDimensions(self):
        return self._image.getDimensions()

    def getWidth(self):
        return self._image.getWidth()

    def getHeight(self):
        return self._image.getHeight()

    def computeImage(self, image, doNormalize, x=0.0, y=0.0):
        image.array[:, :] = self._image.array
        s = float(self._image.array.sum())
        if doNormalize:
            image.array[:, :] /= s
            return 1.0
        return s

    def clone(self):
        return FixedKernel(self._image)
