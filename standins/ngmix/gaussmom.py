from .gmix import GMixModel
from .moments import fwhm_to_T
from .observation import Observation


class GaussMom(object):
    """gaussian-weighted moments, max of the weight is 1"""
    kind = "wmom"

    def __init__(self, fwhm):
        self.fwhm = fwhm
        self.kind = "wmom"
        T = fwhm_to_T(fwhm)
        weight = GMixModel([0.0, 0.0, 0.0, 0.0, T, 1.0], "gauss")
        norm = weight.get_data()['norm'][0]
        weight.set_flux(1.0 / norm)
        self.weight = weight

    def go(self, obs):
        if not isinstance(obs, Observation):
            raise ValueError("input obs must be an Observation")
        # eval includes the pixel area; take it out so that the weight peaks at 1
        area = obs.jacobian.get_area()
        wt = self.weight.copy()
        wt.set_flux(self.weight.get_flux() / area)
        return wt.get_weighted_moments(obs=obs, maxrad=1.0e9)
