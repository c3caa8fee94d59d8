import numpy as np
from .gmix import GMixModel
from .moments import fwhm_to_T
from .gaussmom import GaussMom
from .observation import get_mb_obs, Observation, ObsList, MultiBandObsList
from .gexceptions import PSFFluxFailure


class GuesserBase(object):
    def __init__(self, rng, prior=None):
        self.rng = rng
        self.prior = prior

    def _fix_guess(self, guess, prior, ntry=4):
        for j in range(guess.shape[0]):
            for itry in range(ntry):
                lnp = prior.get_lnprob_scalar(guess[j])
                if np.isfinite(lnp) and lnp > -9e9:
                    break
                if itry < ntry - 1:
                    guess[j] = prior.sample()
        return guess


class _PSFMomBase(object):
    def _moms(self, obs):
        scale = obs.jacobian.get_scale()
        guess_fwhm = 3.5 * scale
        res = GaussMom(fwhm=max(guess_fwhm, 1.2 if not self.guess_from_moms
                                else guess_fwhm)).go(obs)
        if self.guess_from_moms and res['flags'] == 0:
            # deweight
            Tw = fwhm_to_T(guess_fwhm)
            Tm = res['T']
            T = 1 / (1 / Tm - 1 / Tw) if 0 < Tm < 0.95 * Tw else Tm
            return T, obs.image.sum()
        return fwhm_to_T(guess_fwhm), obs.image.sum()


class GMixPSFGuesser(_PSFMomBase):
    def __init__(self, rng, ngauss, guess_from_moms=False):
        self.rng = rng
        self.ngauss = ngauss
        self.guess_from_moms = guess_from_moms

    def __call__(self, obs):
        rng = self.rng
        T, flux = self._moms(obs)
        scale = obs.jacobian.get_scale()
        p = np.zeros(6)
        p[0:2] = rng.uniform(low=-0.1 * scale, high=0.1 * scale, size=2)
        p[2:4] = rng.uniform(low=-0.01, high=0.01, size=2)
        p[4] = T * rng.uniform(low=0.99, high=1.01)
        p[5] = (flux if flux > 0 else 1.0) * rng.uniform(low=0.99, high=1.01)
        return GMixModel(p, 'gauss')


class SimplePSFGuesser(_PSFMomBase):
    def __init__(self, rng, guess_from_moms=False):
        self.rng = rng
        self.guess_from_moms = guess_from_moms

    def __call__(self, obs):
        rng = self.rng
        T, flux = self._moms(obs)
        scale = obs.jacobian.get_scale()
        p = np.zeros(6)
        p[0:2] = rng.uniform(low=-0.1 * scale, high=0.1 * scale, size=2)
        p[2:4] = rng.uniform(low=-0.05, high=0.05, size=2)
        p[4] = T * rng.uniform(low=0.9, high=1.1)
        p[5] = flux * rng.uniform(low=0.9, high=1.1)
        return p


def get_psf_flux_guesses(obs):
    mb = get_mb_obs(obs)
    fluxes = []
    for ol in mb:
        num = den = 0.0
        for o in ol:
            if not o.has_psf_gmix():
                raise PSFFluxFailure("no psf gmix")
            gm = o.get_psf_gmix()
            gm.set_flux(1.0)
            gm.set_cen(0.0, 0.0)
            m = gm.make_image(o.image.shape, jacobian=o.jacobian)
            num += (m * o.image * o.weight).sum()
            den += (m * m * o.weight).sum()
        if den <= 0 or not np.isfinite(num):
            raise PSFFluxFailure("failed to get psf flux")
        fluxes.append(num / den)
    return np.array(fluxes)


class TPSFFluxGuesser(GuesserBase):
    def __init__(self, rng, T, prior=None):
        self.rng = rng
        self.T = T
        self.prior = prior

    def __call__(self, obs, nrand=1):
        rng = self.rng
        fluxes = get_psf_flux_guesses(obs)
        scale = get_mb_obs(obs)[0][0].jacobian.get_scale()
        nband = fluxes.size
        g = np.zeros((nrand, 5 + nband))
        g[:, 0:2] = rng.uniform(low=-scale * 0.5, high=scale * 0.5,
                                size=(nrand, 2))
        g[:, 2:4] = rng.uniform(low=-0.02, high=0.02, size=(nrand, 2))
        g[:, 4] = self.T * rng.uniform(low=0.9, high=1.1, size=nrand)
        for b in range(nband):
            g[:, 5 + b] = fluxes[b] * rng.uniform(low=0.9, high=1.1, size=nrand)
        if self.prior is not None:
            g = self._fix_guess(g, self.prior)
        return g[0] if nrand == 1 else g


class TFluxGuesser(TPSFFluxGuesser):
    def __init__(self, rng, T, flux, prior=None):
        super().__init__(rng, T, prior=prior)
        self.flux = np.atleast_1d(flux)


_ = (Observation, ObsList, MultiBandObsList)
