import numpy as np


class PriorSimpleSep(object):
    def __init__(self, cen_prior, g_prior, T_prior, F_prior):
        if not isinstance(F_prior, list):
            F_prior = [F_prior]
        self.cen_prior, self.g_prior = cen_prior, g_prior
        self.T_prior, self.F_priors = T_prior, F_prior
        self.nband = len(F_prior)

    def get_lnprob_scalar(self, pars):
        from .gexceptions import GMixRangeError
        try:
            lnp = self.cen_prior.get_lnprob_scalar(pars[0], pars[1])
            lnp += self.g_prior.get_lnprob_scalar2d(pars[2], pars[3])
            lnp += self.T_prior.get_lnprob_scalar(pars[4])
            for i, fp in enumerate(self.F_priors):
                lnp += fp.get_lnprob_scalar(pars[5 + i])
        except GMixRangeError:
            return -np.inf
        return lnp

    def fill_fdiff(self, pars, fdiff):
        fdiff[0], fdiff[1] = self.cen_prior.get_fdiff(pars[0], pars[1])
        fdiff[2] = self.g_prior.get_fdiff(pars[2], pars[3])
        fdiff[3] = self.T_prior.get_fdiff(pars[4])
        k = 4
        for i, fp in enumerate(self.F_priors):
            fdiff[k] = fp.get_fdiff(pars[5 + i])
            k += 1
        return k

    def sample(self, n=None):
        s = 1 if n is None else n
        out = np.zeros((s, 5 + self.nband))
        c1, c2 = self.cen_prior.sample(s)
        g1, g2 = self.g_prior.sample2d(s)
        out[:, 0], out[:, 1], out[:, 2], out[:, 3] = c1, c2, g1, g2
        out[:, 4] = self.T_prior.sample(s)
        for i, fp in enumerate(self.F_priors):
            out[:, 5 + i] = fp.sample(s)
        return out[0] if n is None else out
