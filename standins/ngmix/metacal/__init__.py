from .metacal import (  # noqa
    get_all_metacal, METACAL_TYPES, METACAL_MINIMAL_TYPES, DEFAULT_STEP,
)
from . import metacal  # noqa
