import numpy as np
from scipy.special import erf
from .gexceptions import GMixRangeError

LOWVAL = -np.inf


class GPriorBA(object):
    def __init__(self, sigma=0.3, A=1.0, rng=None):
        self.sigma = sigma
        self.A = A
        self.rng = rng
        self.gmax = 1.0
        self._ptab = None

    def get_lnprob_scalar2d(self, g1, g2):
        gsq = g1 * g1 + g2 * g2
        omgsq = 1 - gsq
        if omgsq <= 0:
            raise GMixRangeError("g^2 too big: %s" % gsq)
        return 2 * np.log(omgsq) - 0.5 * gsq / self.sigma**2

    def get_prob_scalar2d(self, g1, g2):
        return np.exp(self.get_lnprob_scalar2d(g1, g2))

    def get_fdiff(self, g1, g2):
        return np.sqrt(max(-2 * self.get_lnprob_scalar2d(g1, g2), 0.0))

    def sample1d(self, n):
        if self._ptab is None:
            g = np.linspace(0, 0.999999, 4000)
            p = 2 * np.pi * g * (1 - g**2)**2 * np.exp(-0.5 * g**2 / self.sigma**2)
            c = np.cumsum(p)
            self._ptab = g, c / c[-1]
        g, c = self._ptab
        return np.interp(self.rng.uniform(size=n), c, g)

    def sample2d(self, nrand=None):
        n = 1 if nrand is None else nrand
        g = self.sample1d(n)
        th = self.rng.uniform(size=n) * 2 * np.pi
        g1, g2 = g * np.cos(th), g * np.sin(th)
        if nrand is None:
            return g1[0], g2[0]
        return g1, g2

    sample = sample2d


class CenPrior(object):
    def __init__(self, cen1, cen2, sigma1, sigma2, rng=None):
        self.cen1, self.cen2 = cen1, cen2
        self.sigma1, self.sigma2 = sigma1, sigma2
        self.rng = rng

    def get_lnprob_scalar(self, x1, x2):
        return -0.5 * (((x1 - self.cen1) / self.sigma1)**2
                       + ((x2 - self.cen2) / self.sigma2)**2)

    def get_fdiff(self, x1, x2):
        return (x1 - self.cen1) / self.sigma1, (x2 - self.cen2) / self.sigma2

    def sample(self, n=None):
        s = 1 if n is None else n
        a = self.cen1 + self.sigma1 * self.rng.normal(size=s)
        b = self.cen2 + self.sigma2 * self.rng.normal(size=s)
        if n is None:
            return a[0], b[0]
        return a, b


class TwoSidedErf(object):
    def __init__(self, minval, width_at_min, maxval, width_at_max, rng=None):
        self.minval, self.width_at_min = minval, width_at_min
        self.maxval, self.width_at_max = maxval, width_at_max
        self.rng = rng

    def get_prob_scalar(self, val):
        p1 = 0.5 * erf((self.maxval - val) / self.width_at_max)
        p2 = 0.5 * erf((val - self.minval) / self.width_at_min)
        return p1 + p2

    def get_lnprob_scalar(self, val):
        p = self.get_prob_scalar(val)
        return np.log(p) if p > 0 else -9.999e9

    def get_fdiff(self, val):
        p = self.get_prob_scalar(val)
        if p > 0:
            return np.sqrt(max(-2 * np.log(p), 0.0))
        return 1.0e10

    def sample(self, n=None):
        s = 1 if n is None else n
        out = self.rng.uniform(low=self.minval, high=self.maxval, size=s)
        return out[0] if n is None else out


class FlatPrior(TwoSidedErf):
    def __init__(self, minval, maxval, rng=None):
        self.minval, self.maxval, self.rng = minval, maxval, rng

    def get_lnprob_scalar(self, val):
        if val < self.minval or val > self.maxval:
            raise GMixRangeError("out of range")
        return 0.0

    def get_fdiff(self, val):
        self.get_lnprob_scalar(val)
        return 0.0
