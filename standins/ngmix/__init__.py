"""Offline stand-in for the ngmix API that metadetect uses.

Written from the public documentation and algorithms of ngmix for use as the
substrate under metadetect in runtime checks; see /verif/DESIGN.md.
"""
__version__ = "2.3.2"
from . import gexceptions, flags, util, shape, jacobian, moments  # noqa
from . import observation, gmix, gaussmom, admom, prepsfmom  # noqa
from . import runners, guessers, bootstrap, priors, joint_prior  # noqa
from . import fitting, metacal, medsreaders  # noqa
from .gexceptions import (  # noqa
    GMixRangeError, GMixFatalError, BootPSFFailure, BootGalFailure,
    PSFFluxFailure)
from .observation import Observation, ObsList, MultiBandObsList  # noqa
from .jacobian import Jacobian, DiagonalJacobian, UnitJacobian  # noqa
from .gmix import GMix, GMixModel  # noqa
from .shape import Shape  # noqa
