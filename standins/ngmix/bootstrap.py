from .observation import Observation, ObsList, MultiBandObsList
from .gexceptions import BootPSFFailure


def bootstrap(obs, runner, psf_runner=None, ignore_failed_psf=True):
    if psf_runner is not None:
        psf_runner.go(obs=obs)
        if ignore_failed_psf:
            obs, _ = remove_failed_psf_obs(obs)
    return runner.go(obs=obs)


class Bootstrapper(object):
    def __init__(self, runner, psf_runner, ignore_failed_psf=True):
        self.runner = runner
        self.psf_runner = psf_runner
        self.ignore_failed_psf = ignore_failed_psf

    def go(self, obs):
        return bootstrap(obs, self.runner, self.psf_runner,
                         self.ignore_failed_psf)


def _flags(obs):
    o = obs.psf if obs.has_psf() else obs
    return o.meta['result']['flags'] if 'result' in o.meta else 1


def remove_failed_psf_obs(obs):
    if isinstance(obs, MultiBandObsList):
        new = MultiBandObsList(meta=obs.meta)
        nrem = []
        for ol in obs:
            n, r = remove_failed_psf_obs(ol)
            new.append(n)
            nrem.append(r)
        return new, nrem
    if isinstance(obs, ObsList):
        new = ObsList(meta=obs.meta)
        nrem = 0
        for o in obs:
            if _flags(o) == 0:
                new.append(o)
            else:
                nrem += 1
        if len(new) == 0:
            raise BootPSFFailure("no good psf fits")
        return new, nrem
    if isinstance(obs, Observation):
        if _flags(obs) != 0:
            raise BootPSFFailure("no good psf fits")
        return obs, 0
    raise ValueError("bad obs type")
