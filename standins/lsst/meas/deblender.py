"""stand-in for lsst.meas.deblender: one child per peak, pixels to the
nearest peak"""
import numpy as np
from ..afw.detection import Footprint, makeHeavyFootprint
from ..afw.geom import SpanSet
from ..pex.config import Config, Field, ListField
from ..pipe.base import Task
from .algorithms import EVENTS


class SourceDeblendConfig(Config):
    maxFootprintArea = Field(doc="", dtype=int, default=1000000)
    maxFootprintSize = Field(doc="", dtype=int, default=0)
    minFootprintAxisRatio = Field(doc="", dtype=float, default=0.0)
    maxNumberOfPeaks = Field(doc="", dtype=int, default=0)
    notDeblendedMask = Field(doc="", dtype=str, default="NOT_DEBLENDED",
                             optional=True)
    propagateAllPeaks = Field(doc="", dtype=bool, default=False)
    maskPlanes = ListField(doc="", dtype=str, default=["SAT", "INTRP",
                                                       "NO_DATA"])


class SourceDeblendTask(Task):
    ConfigClass = SourceDeblendConfig
    _DefaultName = "sourceDeblend"

    def __init__(self, schema, peakSchema=None, **kw):
        super().__init__(**kw)
        self.schema = schema
        schema.addField("deblend_nChild", type=np.int32)

    def run(self, exposure, sources):
        EVENTS.append(dict(what="deblend", kind="sdss"))
        mi = exposure.maskedImage
        for src in list(sources):
            fp = src.getFootprint()
            peaks = fp.getPeaks()
            if len(peaks) < 2:
                src.set("deblend_nChild", 0)
                continue
            src.set("deblend_nChild", len(peaks))
            s = fp.getSpans()
            d = np.array([(s._y - p.getIy())**2 + (s._x - p.getIx())**2
                          for p in peaks])
            owner = np.argmin(d, axis=0)
            for k, p in enumerate(peaks):
                w = owner == k
                cf = Footprint(SpanSet(s._y[w], s._x[w]), peaks=[p])
                child = sources.addNew()
                child.setParent(src.getId())
                child.set("deblend_nChild", 0)
                child.setFootprint(makeHeavyFootprint(cf, mi))
