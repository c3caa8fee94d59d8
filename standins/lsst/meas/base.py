"""stand-in for lsst.meas.base"""
import numpy as np
from ..geom import Point2D
from ..afw import image as afw_image
from ..afw.detection import makeHeavyFootprint
from ..pex.config import Config, Field, ConfigField, ChoiceField, RegistryField
from ..pipe.base import Task

# harness hook: fn(source) -> None, or the centroid to report
CENTROID_HOOK = [None]


class PluginConfig(Config):
    doMeasure = Field(doc="", dtype=bool, default=True)


class SdssCentroidConfig(PluginConfig):
    binmax = Field(doc="", dtype=int, default=16)
    peakMin = Field(doc="", dtype=float, default=-1.0)
    wfac = Field(doc="", dtype=float, default=1.5)
    doFootprintCheck = Field(doc="", dtype=bool, default=True)
    maxDistToPeak = Field(doc="", dtype=float, default=-1.0)


class SourceSlotConfig(Config):
    centroid = Field(doc="", dtype=str, default="base_SdssCentroid",
                     optional=True)
    shape = Field(doc="", dtype=str, default="base_SdssShape", optional=True)
    psfShape = Field(doc="", dtype=str, default="base_SdssShape_psf",
                     optional=True)
    apFlux = Field(doc="", dtype=str, default="base_CircularApertureFlux",
                   optional=True)
    modelFlux = Field(doc="", dtype=str, default="base_GaussianFlux",
                      optional=True)
    psfFlux = Field(doc="", dtype=str, default="base_PsfFlux", optional=True)
    gaussianFlux = Field(doc="", dtype=str, default="base_GaussianFlux",
                         optional=True)
    calibFlux = Field(doc="", dtype=str, default="base_CalibFlux",
                      optional=True)


class NoiseReplacerConfig(Config):
    noiseSource = ChoiceField(
        doc="", dtype=str, default="measure",
        allowed={"measure": "", "metadata": "", "variance": "",
                 "variance_median": ""})
    noiseOffset = Field(doc="", dtype=float, default=0.0)
    noiseSeedMultiplier = Field(doc="", dtype=int, default=1)


_PLUGINS = {
    "base_SdssCentroid": SdssCentroidConfig,
    "base_NaiveCentroid": PluginConfig,
    "base_PsfFlux": PluginConfig,
    "base_SkyCoord": PluginConfig,
    "base_SdssShape": PluginConfig,
    "base_GaussianFlux": PluginConfig,
    "base_PixelFlags": PluginConfig,
    "base_CircularApertureFlux": PluginConfig,
    "base_Blendedness": PluginConfig,
}


class SingleFrameMeasurementConfig(Config):
    plugins = RegistryField(
        "", _PLUGINS, ["base_PixelFlags", "base_SdssCentroid",
                       "base_SdssShape", "base_GaussianFlux", "base_PsfFlux",
                       "base_CircularApertureFlux", "base_SkyCoord"])
    slots = ConfigField(doc="", dtype=SourceSlotConfig)
    doReplaceWithNoise = Field(doc="", dtype=bool, default=True)
    noiseReplacer = ConfigField(doc="", dtype=NoiseReplacerConfig)


class SingleFrameMeasurementTask(Task):
    """centroid: iterated weighted mean around the first peak; falls back
    to the peak when it runs away"""
    ConfigClass = SingleFrameMeasurementConfig
    _DefaultName = "measurement"

    def __init__(self, schema=None, algMetadata=None, **kw):
        super().__init__(**kw)
        self.schema = schema

    def callMeasure(self, measRecord, exposure, *args, **kw):
        names = self.config.plugins.names
        peak = measRecord.getFootprint().getPeaks()[0]
        cen = None
        if CENTROID_HOOK[0] is not None:
            cen = CENTROID_HOOK[0](measRecord)
        if cen is None and "base_SdssCentroid" in names:
            cen = self._centroid(peak, exposure)
        if cen is not None:
            measRecord._cen = Point2D(cen)
        if "base_SkyCoord" in names:
            measRecord.updateCoord(exposure.getWcs())

    def run(self, measCat, exposure, *a, **k):
        for r in measCat:
            self.callMeasure(r, exposure)

    @staticmethod
    def _centroid(peak, exposure):
        # the point about which the image, seen through a small round
        # aperture, is balanced
        im = exposure.image.array
        b = exposure.getBBox()
        r0, c0 = peak.getIy() - b.getBeginY(), peak.getIx() - b.getBeginX()
        r1, r2 = max(0, r0-6), min(im.shape[0], r0+7)
        c1, c2 = max(0, c0-6), min(im.shape[1], c0+7)
        sub = im[r1:r2, c1:c2].astype('f8')
        sub = np.where(np.isfinite(sub), sub, 0)
        y, x = np.mgrid[r1:r2, c1:c2]
        yc, xc = float(r0), float(c0)
        for _ in range(20):
            w = sub*np.exp(-0.5*((y - yc)**2 + (x - xc)**2)/1.5**2)
            tot = w.sum()
            if not tot > 0:
                return peak.getF()
            dy, dx = (w*(y - yc)).sum()/tot, (w*(x - xc)).sum()/tot
            yc, xc = yc + 1.5*dy, xc + 1.5*dx
            if not np.hypot(yc - r0, xc - c0) < 2:
                return peak.getF()
            if np.hypot(dy, dx) < 1e-4:
                break
        return Point2D(xc + b.getBeginX(), yc + b.getBeginY())


class NoiseReplacer:
    """replaces all footprints by noise, shows one at a time, restores all"""

    def __init__(self, config, exposure, footprints, noiseImage=None,
                 exposureId=None, log=None):
        self.config = config
        mi = exposure.maskedImage
        self.exposure = exposure
        self.footprints = footprints
        afw_image.Mask.addMaskPlane("THISDET")
        afw_image.Mask.addMaskPlane("OTHERDET")
        self._this = afw_image.Mask.getPlaneBitMask("THISDET")
        self._other = afw_image.Mask.getPlaneBitMask("OTHERDET")
        self.heavies = {}
        self.noises = {}
        for sid, (parent, fp) in footprints.items():
            self.heavies[sid] = fp if fp.isHeavy() else makeHeavyFootprint(
                fp, mi)
        if noiseImage is not None:
            noise = noiseImage.image.array
        else:
            rng = np.random.RandomState(
                (config.noiseSeedMultiplier or 1) % (2**32))
            var = np.median(mi.variance.array)
            noise = rng.normal(scale=np.sqrt(var), size=mi.image.array.shape)
        for sid, (parent, fp) in footprints.items():
            r, c = fp.getSpans()._local(mi.getBBox())
            n = noise[r, c].astype(mi.image.array.dtype)
            self.noises[sid] = (r, c, n)
        for sid in footprints:
            r, c, n = self.noises[sid]
            mi.image.array[r, c] = n
            mi.mask.array[r, c] |= self._other
        self.inserted = None

    def _top(self, sid):
        while True:
            parent = self.footprints[sid][0]
            if parent == 0 or parent not in self.footprints:
                return sid
            sid = parent

    def insertSource(self, sid):
        mi = self.exposure.maskedImage
        h = self.heavies[sid]
        r, c = h.getSpans()._local(mi.getBBox())
        mi.image.array[r, c] = h.getImageArray()
        mi.mask.array[r, c] |= self._this
        mi.mask.array[r, c] &= ~self._other

    def removeSource(self, sid):
        mi = self.exposure.maskedImage
        r, c, n = self.noises[self._top(sid)]
        mi.image.array[r, c] = n
        r, c = self.heavies[sid].getSpans()._local(mi.getBBox())
        mi.mask.array[r, c] |= self._other
        mi.mask.array[r, c] &= ~self._this

    def end(self):
        mi = self.exposure.maskedImage
        done = set()
        for sid in self.footprints:
            t = self._top(sid)
            if t in done:
                continue
            done.add(t)
            h = self.heavies[t]
            r, c = h.getSpans()._local(mi.getBBox())
            mi.image.array[r, c] = h.getImageArray()
            mi.mask.array[r, c] &= ~(self._this | self._other)
