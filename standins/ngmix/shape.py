import numpy as np
from .gexceptions import GMixRangeError


def g1g2_to_e1e2(g1, g2):
    g = np.sqrt(g1 * g1 + g2 * g2)
    if np.any(g >= 1.0):
        raise GMixRangeError("g out of bounds: %s" % g)
    if np.isscalar(g) and g == 0.0:
        return 0.0, 0.0
    eta = 2 * np.arctanh(g)
    e = np.tanh(eta)
    e = np.minimum(e, 0.99999999)
    with np.errstate(all='ignore'):
        fac = np.where(g == 0, 0.0, e / np.where(g == 0, 1.0, g))
    return fac * g1, fac * g2


def e1e2_to_g1g2(e1, e2):
    e = np.sqrt(e1 * e1 + e2 * e2)
    if np.any(e >= 1.0):
        raise GMixRangeError("e out of bounds: %s" % e)
    if np.isscalar(e) and e == 0.0:
        return 0.0, 0.0
    eta = np.arctanh(e)
    g = np.tanh(0.5 * eta)
    g = np.minimum(g, 0.99999999)
    with np.errstate(all='ignore'):
        fac = np.where(e == 0, 0.0, g / np.where(e == 0, 1.0, e))
    return fac * e1, fac * e2


class Shape(object):
    def __init__(self, g1, g2):
        self.g1 = g1
        self.g2 = g2
        if np.sqrt(g1**2 + g2**2) >= 1.0:
            raise GMixRangeError("g too large")

    @property
    def g(self):
        return np.sqrt(self.g1**2 + self.g2**2)
