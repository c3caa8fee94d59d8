import numpy as np
from .gmix import GMix, GMixModel
from .moments import fwhm_to_T
from .util import get_ratio_error
from . import flags as F
from .observation import Observation

DEFAULT_MAXITER = 200
DEFAULT_SHIFTMAX = 5.0
DEFAULT_ETOL = 1.0e-5
DEFAULT_TTOL = 1.0e-3


class AdmomResult(dict):
    def __init__(self, obs, result):
        self._obs = obs
        self.update(result)

    def get_gmix(self):
        if self['flags'] != 0:
            raise RuntimeError('cannot create gmix, fit failed')
        d = self['pars']
        return GMixModel(
            [d[0], d[1], self['g'][0], self['g'][1], self['T'], self['flux']
             if np.isfinite(self['flux']) and self['flux'] > 0 else 1.0],
            'gauss')

    def make_image(self):
        return self.get_gmix().make_image(
            self._obs.image.shape, jacobian=self._obs.jacobian)


class AdmomFitter(object):
    kind = "am"

    def __init__(self, maxiter=DEFAULT_MAXITER, shiftmax=DEFAULT_SHIFTMAX,
                 etol=DEFAULT_ETOL, Ttol=DEFAULT_TTOL, cenonly=False, rng=None):
        self.kind = "am"
        self.maxiter = maxiter
        self.shiftmax = shiftmax
        self.etol = etol
        self.Ttol = Ttol
        self.cenonly = cenonly
        self.rng = rng

    def _guess(self, obs, guess):
        if isinstance(guess, GMix):
            return guess.copy()
        T = guess
        if T is None:
            T = fwhm_to_T(1.0)
        rng = self.rng if self.rng is not None else np.random.RandomState(0)
        scale = obs.jacobian.get_scale()
        pars = np.zeros(6)
        pars[0:2] += rng.uniform(low=-0.5 * scale, high=0.5 * scale, size=2)
        pars[2:4] += rng.uniform(low=-0.3, high=0.3, size=2)
        pars[4] = T * (1.0 + rng.uniform(low=-0.1, high=0.1))
        pars[5] = 1.0
        return GMixModel(pars, 'gauss')

    def go(self, obs, guess=None):
        if not isinstance(obs, Observation):
            raise ValueError("input obs must be an Observation")
        gm = self._guess(obs, guess)
        return AdmomResult(obs, self._run(obs, gm))

    def _run(self, obs, gm):
        nan = np.nan
        res = dict(
            flags=0, flagstr="", numiter=0, pars=np.full(6, nan),
            e1=nan, e2=nan, e=np.full(2, nan), e_err=np.full(2, nan),
            e_cov=np.diag([nan, nan]), g=np.full(2, nan),
            T=nan, T_err=nan, T_flags=0, T_flagstr="",
            flux=nan, flux_err=nan, flux_flags=0, flux_flagstr="",
            flux_mean=nan, s2n=nan, rho4=nan, rho4_err=nan, rho4_flags=0,
            sums=np.full(7, nan), sums_cov=np.full((7, 7), nan),
            sums_err=np.full(7, nan), sums_norm=nan, wsum=nan, npix=-1,
        )
        jac = obs.jacobian
        rows, cols = np.mgrid[0:obs.image.shape[0], 0:obs.image.shape[1]]
        v, u = jac.get_vu(rows, cols)
        use = obs.weight > 0
        v, u = v[use], u[use]
        im, ivar = obs.image[use], obs.weight[use]
        area = jac.get_area()
        row, col = gm.get_cen()
        row0, col0 = row, col
        irr, irc, icc = gm._mom()
        res['npix'] = im.size
        e1old = e2old = Told = 1e9
        ok = False
        if im.size == 0:
            res['flags'] |= F.NONPOS_FLUX
        for i in range(self.maxiter if im.size else 0):
            res['numiter'] = i + 1
            det = irr * icc - irc**2
            if not det > 1e-10:
                res['flags'] |= F.LOW_DET
                break
            norm = 1.0 / (2 * np.pi * np.sqrt(det))

            def wfun(r, c):
                dv, du = v - r, u - c
                chi2 = (icc * dv**2 + irr * du**2 - 2 * irc * dv * du) / det
                w = np.where(chi2 < 25.0 * 4, np.exp(-0.5 * chi2) * norm, 0.0)
                return w * area, dv, du, chi2
            w, dv, du, chi2 = wfun(row, col)
            s0 = (w * im).sum()
            if not s0 > 0:
                res['flags'] |= F.NONPOS_FLUX
                break
            row = (w * im * v).sum() / s0
            col = (w * im * u).sum() / s0
            if abs(row - row0) > self.shiftmax or \
                    abs(col - col0) > self.shiftmax:
                res['flags'] |= F.CEN_SHIFT
                break
            w, dv, du, chi2 = wfun(row, col)
            fs = np.stack([
                dv, du, du**2 - dv**2, 2 * dv * du, dv**2 + du**2,
                np.ones_like(dv), chi2**2])
            sums = fs @ (w * im)
            if not sums[5] > 0:
                res['flags'] |= F.NONPOS_FLUX
                break
            T = sums[4] / sums[5]
            M1, M2 = sums[2] / sums[5], sums[3] / sums[5]
            if not T > 0:
                res['flags'] |= F.NONPOS_SIZE
                break
            e1, e2 = M1 / T, M2 / T
            wrr, wrc, wcc = 0.5 * (T - M1), 0.5 * M2, 0.5 * (T + M1)
            if i > 0 and abs(e1 - e1old) < self.etol and \
                    abs(e2 - e2old) < self.etol and abs(T / Told - 1) < self.Ttol:
                ok = True
                break
            e1old, e2old, Told = e1, e2, T
            # deweight
            detm = wrr * wcc - wrc**2
            if not detm > 1e-12:
                res['flags'] |= F.LOW_DET
                break
            N = np.linalg.inv(np.array([[wrr, wrc], [wrc, wcc]])) - \
                np.linalg.inv(np.array([[irr, irc], [irc, icc]]))
            if not np.linalg.det(N) > 1e-12:
                res['flags'] |= F.LOW_DET
                break
            Ninv = np.linalg.inv(N)
            irr, irc, icc = Ninv[0, 0], Ninv[0, 1], Ninv[1, 1]
        if not ok and res['flags'] == 0:
            res['flags'] |= F.MAXITER
        if res['flags'] != 0:
            res['T_flags'] |= res['flags']
            res['flux_flags'] |= res['flags']
        else:
            var = 1.0 / ivar
            cov = (fs * (w**2 * var)) @ fs.T
            res['sums'] = sums
            res['sums_cov'] = cov
            res['sums_norm'] = w.sum()
            res['wsum'] = w.sum()
            res['pars'] = np.array([
                row, col, icc - irr, 2 * irc, icc + irr, 1.0])
            Tw = irr + icc
            res['T'] = Tw
            res['e1'], res['e2'] = (icc - irr) / Tw, 2 * irc / Tw
            res['e'] = np.array([res['e1'], res['e2']])
            from .shape import e1e2_to_g1g2
            res['g'] = np.array(e1e2_to_g1g2(res['e1'], res['e2']))
            with np.errstate(invalid='ignore'):
                res['sums_err'] = np.sqrt(np.diag(cov))
            # the best-fit amplitude with the weight as model
            n2 = (w**2).sum()
            res['flux'] = (w * im).sum() / n2
            fv = (w**2 * var).sum() / n2**2
            if fv > 0:
                res['flux_err'] = np.sqrt(fv)
                res['s2n'] = res['flux'] / res['flux_err']
            else:
                res['flux_flags'] |= F.NONPOS_VAR
                res['flags'] |= F.NONPOS_VAR
            res['T_err'] = 4 * get_ratio_error(
                sums[4], sums[5], cov[4, 4], cov[5, 5], cov[4, 5])
            err = np.array([
                2 * get_ratio_error(
                    sums[m], sums[4], cov[m, m], cov[4, 4], cov[m, 4])
                for m in (2, 3)])
            res['rho4'] = sums[6] / sums[5]
            res['rho4_err'] = get_ratio_error(
                sums[6], sums[5], cov[6, 6], cov[5, 5], cov[6, 5])
            res['flux_mean'] = sums[5] / w.sum()
            if np.all(np.isfinite(err)):
                res['e_err'] = err
                res['e_cov'] = np.diag(err**2)
            else:
                res['flags'] |= F.NONPOS_SHAPE_VAR
        for p in ("flux_", "T_", ""):
            res[p + "flagstr"] = F.get_flags_str(res[p + "flags"])
        return res
