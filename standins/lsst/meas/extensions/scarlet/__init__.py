"""stand-in for lsst.meas.extensions.scarlet

Every peak becomes a Gaussian model in each band (amplitude from the data at
the peak), convolved with the band's PSF."""
import numpy as np
from ....geom import Point2D
from ....afw import image as afw_image
from ....afw import table as afw_table
from ....pex.config import Config, Field
from ....pipe.base import Task, Struct
from ....scarlet import lite as scl
from ...algorithms import EVENTS
from . import io  # noqa


class ScarletDeblendConfig(Config):
    maxFootprintArea = Field(doc="", dtype=int, default=100000)
    processSingles = Field(doc="", dtype=bool, default=True)
    maxIter = Field(doc="", dtype=int, default=300)


class DeconvolveExposureConfig(Config):
    maxIter = Field(doc="", dtype=int, default=100)


class DeconvolveExposureTask(Task):
    ConfigClass = DeconvolveExposureConfig
    _DefaultName = "deconvolve"

    def run(self, coadd, catalog=None, band=None, **kw):
        return Struct(deconvolved=afw_image.ExposureF(coadd, deep=True))


class ScarletDeblendTask(Task):
    ConfigClass = ScarletDeblendConfig
    _DefaultName = "scarletDeblend"

    def __init__(self, schema, peakSchema=None, **kw):
        super().__init__(**kw)
        self.schema = schema
        self.objectSchema = schema
        schema.addField("deblend_nChild", type=np.int32)

    def run(self, mExposure, mDeconvolved=None, mergedSources=None, **kw):
        EVENTS.append(dict(what="deblend", kind="scarlet"))
        bands = mExposure.bands
        box = mExposure.getBBox()
        cen = Point2D(box.getCenter())
        psfs = [s.getPsf().computeKernelImage(cen).array
                for s in mExposure.singles]
        dim = max(p.shape[0] for p in psfs)
        psf = np.zeros((len(bands), dim, dim), dtype='f4')
        for i, p in enumerate(psfs):
            o = (dim - p.shape[0])//2
            psf[i, o:o+p.shape[0], o:o+p.shape[1]] = p/p.sum()
        obs_box = scl.Box(
            (box.getHeight(), box.getWidth()),
            (box.getBeginY(), box.getBeginX()))
        cat = afw_table.SourceCatalog(
            afw_table.SourceTable(mergedSources.table.schema,
                                  mergedSources.table._ids))
        data = scl.ModelData(bands=bands, model_psf=scl.gaussian(0.8, 15),
                             psf=psf)
        for src in mergedSources:
            fp = src.getFootprint()
            made = []
            for p in fp.getPeaks():
                rec = cat.addNew()
                rec.setParent(src.getId())
                rec.set("deblend_nChild", 0)
                amp = []
                for s in mExposure.singles:
                    v = s.image[p.getI()]
                    amp.append(v if np.isfinite(v) else 0.0)
                made.append(scl.make_gauss_source(
                    rec.getId(), (p.getIy(), p.getIx()), amp,
                    sigma=1.2, half=6, bands=bands))
            data.add_blend(src.getId(), made, obs_box)
        return Struct(scarletModelData=data, deblendedCatalog=cat,
                      objectCatalog=cat)
