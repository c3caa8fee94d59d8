"""stand-in for lsst.meas.algorithms

Detection: convolve with a Gaussian of the PSF size, threshold at
thresholdValue times the standard deviation of the pixels not excluded by
statsMask, 8-connected footprints grown by nSigmaToGrow PSF widths, one peak
per local maximum.  Background: sigma-clipped mean in bins of the pixels
without the ignored planes, bilinear in between.
"""
import numpy as np
import scipy.ndimage as ndi
from ..geom import Point2I, Extent2I, Box2I
from ..afw import image as afw_image
from ..afw import table as afw_table
from ..afw.detection import Footprint
from ..afw.geom import SpanSet
from ..pex.config import Config, Field, ListField, ChoiceField
from ..pex.exceptions import InvalidParameterError
from ..pex.exceptions import RuntimeError as LsstRuntimeError
from ..pipe.base import Task, Struct

# harness hooks: every background and detection run is recorded here while
# recording is on, and named faults are raised
EVENTS = []
FAULTS = {}


class KernelPsf:
    def __init__(self, kernel, averagePosition=None):
        self._kernel = kernel

    def getKernel(self):
        return self._kernel

    def computeKernelImage(self, position=None, *a):
        if position is not None and position._int:
            raise TypeError("computeKernelImage needs a Point2D")
        im = self._kernel._image.clone()
        im.array[...] /= im.array.sum()
        w, h = im.getWidth(), im.getHeight()
        im.setXY0(-(w//2), -(h//2))
        return im

    def computeImage(self, position=None, *a):
        return self.computeKernelImage(position)

    def computeBBox(self, position=None):
        return self.computeKernelImage(position).getBBox()

    def computeShape(self, position=None):
        a = self.computeKernelImage().array
        y, x = np.mgrid[:a.shape[0], :a.shape[1]]
        t = a.sum()
        x = x - (a*x).sum()/t
        y = y - (a*y).sum()/t
        s2 = 0.5*((a*x*x).sum()/t + (a*y*y).sum()/t)

        class Shape:
            def getDeterminantRadius(self):
                return float(np.sqrt(max(s2, 0.01)))

            getTraceRadius = getDeterminantRadius
        return Shape()

    def getAveragePosition(self):
        from ..geom import Point2D
        return Point2D(0, 0)

    def clone(self):
        return type(self)(self._kernel.clone())


class VaryingPsf(KernelPsf):
    """harness PSF whose image depends on position; fn(x, y) -> array.  With
    clonable=False cloning fails as it does for some C++ PSFs"""

    def __init__(self, fn, clonable=True):
        self._fn = fn
        self._clonable = clonable

    def computeKernelImage(self, position=None, *a):
        if position is not None and position._int:
            raise TypeError("computeKernelImage needs a Point2D")
        if position is None:
            arr = self._fn(0.0, 0.0)
        else:
            if not (np.isfinite(position.x) and np.isfinite(position.y)):
                raise InvalidParameterError("position is not finite")
            arr = self._fn(position.x, position.y)
        im = afw_image.ImageD(np.array(arr, dtype=float))
        im.setXY0(-(im.getWidth()//2), -(im.getHeight()//2))
        return im

    def clone(self):
        if not self._clonable:
            raise RuntimeError("cannot clone this psf")
        return VaryingPsf(self._fn)


class SubtractBackgroundConfig(Config):
    statisticsProperty = ChoiceField(
        doc="", dtype=str, default="MEANCLIP",
        allowed={"MEANCLIP": "", "MEAN": "", "MEDIAN": ""})
    undersampleStyle = ChoiceField(
        doc="", dtype=str, default="REDUCE_INTERP_ORDER",
        allowed={"THROW_EXCEPTION": "", "REDUCE_INTERP_ORDER": "",
                 "INCREASE_NXNYSAMPLE": ""})
    binSize = Field(doc="", dtype=int, default=128)
    binSizeX = Field(doc="", dtype=int, default=0)
    binSizeY = Field(doc="", dtype=int, default=0)
    algorithm = ChoiceField(
        doc="", dtype=str, default="AKIMA_SPLINE", optional=True,
        allowed={"CONSTANT": "", "LINEAR": "", "NATURAL_SPLINE": "",
                 "AKIMA_SPLINE": "", "NONE": ""})
    ignoredPixelMask = ListField(
        doc="", dtype=str, default=["BAD", "EDGE", "DETECTED",
                                    "DETECTED_NEGATIVE", "NO_DATA"])
    isNanSafe = Field(doc="", dtype=bool, default=False)
    useApprox = Field(doc="", dtype=bool, default=True)
    approxOrderX = Field(doc="", dtype=int, default=6)
    approxOrderY = Field(doc="", dtype=int, default=-1)
    weighting = Field(doc="", dtype=bool, default=True)
    doFilterSuperPixels = Field(doc="", dtype=bool, default=False)


class _BackgroundList(list):
    def getImage(self):
        out = None
        for arr in self:
            out = arr.copy() if out is None else out + arr
        return afw_image.ImageF(out.astype('f4'))


class SubtractBackgroundTask(Task):
    ConfigClass = SubtractBackgroundConfig
    _DefaultName = "subtractBackground"

    def run(self, exposure, background=None, stats=True,
            statsKeys=None, backgroundToPhotometricRatio=None):
        if "background" in FAULTS:
            FAULTS["background"](exposure)
        im = exposure.image.array
        bits = 0
        for n in self.config.ignoredPixelMask:
            bits |= afw_image.Mask.getPlaneBitMask(n)
        use = ((exposure.mask.array & bits) == 0) & np.isfinite(im)
        if not use.any():
            raise LsstRuntimeError("no pixels to measure the background")
        bg = self._model(im.astype('f8'), use)
        exposure.image.array[:, :] -= bg.astype(im.dtype)
        meta = exposure.getMetadata()
        mean = float(bg.mean())
        meta["BGMEAN"] = mean
        meta["BGVAR"] = float(bg.var())
        EVENTS.append(dict(
            what="background", exp=id(exposure), image=id(
                im.__array_interface__['data'][0]),
            data=im.__array_interface__['data'][0],
            planes=list(self.config.ignoredPixelMask), used=use.copy(),
            bg=bg.astype(im.dtype), mean=mean))
        b = background if background is not None else _BackgroundList()
        if hasattr(b, "append"):
            b.append(bg)
        return Struct(background=b)

    def _model(self, im, use):
        n = self.config.binSize
        ny, nx = im.shape
        by, bx = max(1, int(round(ny/n))), max(1, int(round(nx/n)))
        ye = np.linspace(0, ny, by + 1).astype(int)
        xe = np.linspace(0, nx, bx + 1).astype(int)
        g = np.full((by, bx), np.nan)
        for j in range(by):
            for i in range(bx):
                s = (slice(ye[j], ye[j+1]), slice(xe[i], xe[i+1]))
                v = im[s][use[s]]
                for _ in range(3):
                    if v.size < 3:
                        break
                    m, sd = np.median(v), v.std()
                    k = np.abs(v - m) <= 3*sd
                    if k.all():
                        break
                    v = v[k]
                if v.size:
                    g[j, i] = v.mean()
        g[np.isnan(g)] = np.nanmean(g)
        if g.size == 1:
            return np.full(im.shape, g[0, 0])
        yc = (ye[:-1] + ye[1:] - 1)/2.0
        xc = (xe[:-1] + xe[1:] - 1)/2.0
        rows = np.array([np.interp(np.arange(nx), xc, r) for r in g])
        return np.array([np.interp(np.arange(ny), yc, c)
                         for c in rows.T]).T


class SourceDetectionConfig(Config):
    minPixels = Field(doc="", dtype=int, default=1)
    isotropicGrow = Field(doc="", dtype=bool, default=True)
    combinedGrow = Field(doc="", dtype=bool, default=True)
    nSigmaToGrow = Field(doc="", dtype=float, default=2.4)
    returnOriginalFootprints = Field(doc="", dtype=bool, default=False)
    thresholdValue = Field(doc="", dtype=float, default=5.0)
    includeThresholdMultiplier = Field(doc="", dtype=float, default=1.0)
    thresholdType = ChoiceField(
        doc="", dtype=str, default="pixel_stdev",
        allowed={"variance": "", "stdev": "", "value": "",
                 "pixel_stdev": ""})
    thresholdPolarity = ChoiceField(
        doc="", dtype=str, default="positive",
        allowed={"positive": "", "negative": "", "both": ""})
    adjustBackground = Field(doc="", dtype=float, default=0.0)
    reEstimateBackground = Field(doc="", dtype=bool, default=True)
    doApplyFlatBackgroundRatio = Field(doc="", dtype=bool, default=False)
    doTempLocalBackground = Field(doc="", dtype=bool, default=True)
    doTempWideBackground = Field(doc="", dtype=bool, default=False)
    nPeaksMaxSimple = Field(doc="", dtype=int, default=1)
    nSigmaForKernel = Field(doc="", dtype=float, default=7.0)
    statsMask = ListField(
        doc="", dtype=str, default=["BAD", "SAT", "EDGE", "NO_DATA"])
    excludeMaskPlanes = ListField(doc="", dtype=str, default=[])


class SourceDetectionTask(Task):
    ConfigClass = SourceDetectionConfig
    _DefaultName = "sourceDetection"

    def __init__(self, schema=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def run(self, table, exposure, doSmooth=True, sigma=None,
            clearMask=True, expId=None, background=None):
        if "detection" in FAULTS:
            FAULTS["detection"](exposure)
        c = self.config
        mask = exposure.mask
        det = afw_image.Mask.getPlaneBitMask("DETECTED")
        neg = afw_image.Mask.getPlaneBitMask("DETECTED_NEGATIVE")
        if clearMask:
            mask.array[...] &= ~(det | neg)
        if c.reEstimateBackground:
            raise NotImplementedError("stand-in: reEstimateBackground")
        im = exposure.image.array.astype('f8')
        im = np.where(np.isfinite(im), im, 0.0)
        if sigma is None:
            psf = exposure.getPsf()
            sigma = psf.computeShape().getDeterminantRadius() if (
                psf is not None) else 2.0
        sm = ndi.gaussian_filter(im, sigma, mode='constant') if doSmooth \
            else im
        bits = 0
        for n in c.statsMask:
            bits |= afw_image.Mask.getPlaneBitMask(n)
        good = (mask.array & bits) == 0
        v = sm[good]
        if v.size == 0:
            sd = np.inf
        else:
            for _ in range(4):
                m, sd = np.median(v), v.std()
                k = np.abs(v - m) <= 3*sd
                if k.all() or k.sum() < 10:
                    break
                v = v[k]
        excl = 0
        for n in c.excludeMaskPlanes:
            excl |= afw_image.Mask.getPlaneBitMask(n)
        if c.thresholdType == "value":
            cut = c.thresholdValue
        else:
            cut = c.thresholdValue*sd
        cut *= c.includeThresholdMultiplier
        above = (sm > max(cut, 1e-12)) & ((mask.array & excl) == 0)
        grow = int(round(c.nSigmaToGrow*sigma)) if c.combinedGrow else 0
        seed = above
        if grow > 0 and above.any():
            yy, xx = np.mgrid[-grow:grow+1, -grow:grow+1]
            above = ndi.binary_dilation(
                above, structure=(yy**2 + xx**2) <= grow**2)
        lab, n = ndi.label(above, structure=np.ones((3, 3)))
        big = ndi.maximum_filter(sm, size=3)
        peakpix = seed & (sm >= big)
        xy0 = exposure.getXY0()
        cat = afw_table.SourceCatalog(table)
        slices = ndi.find_objects(lab)
        for j in range(n):
            sl = slices[j]
            own = lab[sl] == j + 1
            if (own & seed[sl]).sum() < c.minPixels:
                continue
            y, x = np.where(own)
            y, x = y + sl[0].start, x + sl[1].start
            fp = Footprint(SpanSet(y + xy0.y, x + xy0.x))
            py, px = np.where(own & peakpix[sl])
            py, px = py + sl[0].start, px + sl[1].start
            order = np.argsort(-sm[py, px], kind='stable')
            taken = []
            for k in order:
                if any(abs(py[k]-a) <= 2 and abs(px[k]-b) <= 2
                       for a, b in taken):
                    continue
                taken.append((py[k], px[k]))
                fp.addPeak(float(px[k] + xy0.x), float(py[k] + xy0.y),
                           sm[py[k], px[k]])
            if not taken:
                continue
            r = cat.addNew()
            r.setFootprint(fp)
            mask.array[y, x] |= det
        EVENTS.append(dict(
            what="detection", threshold=c.thresholdValue,
            data=exposure.image.array.__array_interface__['data'][0],
            nsrc=len(cat), statsMask=list(c.statsMask),
            exclude=list(c.excludeMaskPlanes), config=c.toDict()))
        return Struct(sources=cat, positive=None, negative=None,
                      numPos=len(cat), numNeg=0, background=None,
                      factor=1.0)


def _unused():
    return Point2I, Extent2I, Box2I
