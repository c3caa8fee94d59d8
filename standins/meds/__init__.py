"""stand-in for the meds package (the part ngmix.medsreaders builds on)"""
__version__ = "0.9.16"
from . import util  # noqa
from .meds import MEDS  # noqa
