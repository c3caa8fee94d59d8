"""stand-in; see lsst/__init__.py"""
