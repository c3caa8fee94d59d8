"""stand-in"""
from . import utils  # noqa
from .utils import updateCatalogFootprints  # noqa
