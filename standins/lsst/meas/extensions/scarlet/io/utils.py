"""stand-in for lsst.meas.extensions.scarlet.io.utils"""
from .....afw.detection import Footprint
from .....afw.geom import SpanSet
import numpy as np


def model_footprint(source, blend):
    """footprint of a convolved model and its single peak"""
    obs = blend.observation
    py, px = obs.psfs.shape[1:]
    box = source.bbox.grow((py//2, px//2)) & obs.bbox
    model = obs.convolve(source.get_model().project(bbox=box), mode="real")
    valid = np.max(model.data, axis=0) != 0
    y, x = np.where(valid)
    fp = Footprint(SpanSet(y + model.yx0[0], x + model.yx0[1]))
    fp.addPeak(source.center[1], source.center[0], float(np.max(model.data)))
    return fp


def updateCatalogFootprints(
    modelData, catalog, band, imageForRedistribution=None,
    removeScarletData=True, updateFluxColumns=True, **kw
):
    for full in modelData.blends.values():
        for data in full.children.values():
            blend = data.minimal_data_to_blend(
                model_psf=modelData.metadata["model_psf"][None],
                psf=modelData.metadata["psf"],
                bands=modelData.metadata["bands"])
            for src in blend.sources:
                rec = catalog.find(src.metadata["id"])
                rec.setFootprint(model_footprint(src, blend))
    if removeScarletData:
        modelData.blends.clear()
