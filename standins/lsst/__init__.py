"""Offline stand-in for the parts of the LSST Science Pipelines that
metadetect.lsst touches.

Written from the public documentation of afw, geom, pex_config, pipe_base,
meas_* and scarlet_lite; see /verif/DESIGN.md for what it does and does not
model.
"""
