from .observation import Observation, ObsList, MultiBandObsList
from .gexceptions import BootPSFFailure  # noqa
from . import log as _log


class RunnerBase(object):
    def __init__(self, fitter, guesser=None, ntry=1):
        self.fitter = fitter
        self.guesser = guesser
        self.ntry = ntry


class Runner(RunnerBase):
    def go(self, obs):
        return run_fitter(obs, self.fitter, guesser=self.guesser, ntry=self.ntry)


class PSFRunner(RunnerBase):
    def __init__(self, fitter, guesser=None, ntry=1, set_result=True):
        super().__init__(fitter, guesser=guesser, ntry=ntry)
        self.set_result = set_result

    def go(self, obs):
        return run_psf_fitter(
            obs, self.fitter, guesser=self.guesser, ntry=self.ntry,
            set_result=self.set_result)


def run_fitter(obs, fitter, guesser=None, ntry=1):
    for i in range(ntry):
        if guesser is not None:
            res = fitter.go(obs=obs, guess=guesser(obs=obs))
        else:
            res = fitter.go(obs=obs)
        if res['flags'] == 0:
            break
    return res


def run_psf_fitter(obs, fitter, guesser=None, ntry=1, set_result=True):
    if isinstance(obs, (ObsList, MultiBandObsList)):
        return [
            run_psf_fitter(o, fitter, guesser=guesser, ntry=ntry,
                           set_result=set_result) for o in obs]
    if not isinstance(obs, Observation):
        raise ValueError(
            "obs must be an Observation, ObsList, or MultiBandObsList")
    o = obs.psf if obs.has_psf() else obs
    res = run_fitter(o, fitter, guesser=guesser, ntry=ntry)
    if 'psf_fit' in _log.faults:
        res = _log.faults['psf_fit'](o, res)
    if set_result:
        o.meta['result'] = res
        if res['flags'] == 0 and hasattr(res, 'get_gmix'):
            o.set_gmix(res.get_gmix())
    return res
