import numpy as np
from scipy.optimize import leastsq
from .gmix import GMixModel, GMix
from .gexceptions import GMixRangeError
from .observation import get_mb_obs
from . import flags as F

BIGVAL = 1.0e10


class FitModel(dict):
    def __init__(self, mb, model, prior):
        self._mb = mb
        self._model = model
        self._prior = prior

    def get_gmix(self, band=0):
        p = self['pars']
        return GMixModel(list(p[:5]) + [p[5 + band]], self._model)

    def get_convolved_gmix(self, band=0, obsnum=0):
        gm = self.get_gmix(band)
        o = self._mb[band][obsnum]
        if o.has_psf_gmix():
            gm = gm.convolve(o.psf.gmix)
        return gm

    def make_image(self, band=0, obsnum=0):
        o = self._mb[band][obsnum]
        return self.get_convolved_gmix(band, obsnum).make_image(
            o.image.shape, jacobian=o.jacobian)


class Fitter(object):
    """least-squares fit of a simple model, convolved with the psf mixture"""

    def __init__(self, model, prior=None, fit_pars=None):
        self.model = model
        self.model_name = model
        self.kind = model
        self.prior = prior
        self.fit_pars = fit_pars or {}

    def go(self, obs, guess):
        mb = get_mb_obs(obs)
        nband = len(mb)
        guess = np.array(guess, dtype='f8')
        if guess.size != 5 + nband:
            raise ValueError(
                "guess has size %d but expected %d" % (guess.size, 5 + nband))
        data = []
        for b, ol in enumerate(mb):
            for o in ol:
                r, c = np.mgrid[0:o.image.shape[0], 0:o.image.shape[1]]
                j = o.jacobian
                v, u = j.get_vu(r, c)
                use = o.weight > 0
                psf = None
                if o.has_psf():
                    psf = o.get_psf_gmix()
                    psf.set_flux(1.0)
                    psf.set_cen(0.0, 0.0)
                data.append((b, v[use], u[use], o.image[use],
                             np.sqrt(o.weight[use]), j.get_area(), psf))
        npix = sum(d[1].size for d in data)
        npr = (4 + nband) if self.prior is not None else 0

        def fdiff(pars):
            out = np.zeros(npix + npr)
            try:
                if npr:
                    self.prior.fill_fdiff(pars, out[:npr])
                k = npr
                for b, v, u, im, sw, area, psf in data:
                    gm = GMixModel(list(pars[:5]) + [pars[5 + b]], self.model)
                    if psf is not None:
                        gm = gm.convolve(psf)
                    m = gm.eval_uv(v, u) * area
                    out[k:k + v.size] = (m - im) * sw
                    k += v.size
            except GMixRangeError:
                out[:] = BIGVAL
            return out
        res = FitModel(mb, self.model, self.prior)
        res.update(flags=0, nband=nband, npix=npix, model=self.model)
        res['pars'] = np.full(5 + nband, np.nan)
        dof = npix - guess.size
        res['dof'] = dof
        if not np.all(np.isfinite(fdiff(guess))) or dof <= 0:
            res['flags'] |= F.LM_FUNC_NOTFINITE if dof > 0 else F.ZERO_DOF
            res['errmsg'] = 'bad start'
            return self._finish(res)
        kw = {k: v for k, v in self.fit_pars.items()
              if k in ('maxfev', 'ftol', 'xtol')}
        pars, cov, info, msg, ier = leastsq(
            fdiff, guess, full_output=1, **kw)
        res['nfev'] = info['nfev']
        res['ier'] = ier
        res['errmsg'] = msg
        if ier == 0 or ier >= 5:
            res['flags'] |= F.MAXITER
        f0 = info['fvec']
        if cov is None:
            res['flags'] |= F.LM_SINGULAR_MATRIX
        elif not np.all(np.isfinite(pars)) or np.all(f0 == BIGVAL):
            res['flags'] |= F.LM_FUNC_NOTFINITE
        else:
            if np.any(np.diag(cov) <= 0):
                res['flags'] |= F.LM_NEG_COV_DIAG
        if res['flags'] == 0:
            res['pars'] = pars
            res['pars_cov'] = cov
            res['pars_err'] = np.sqrt(np.diag(cov))
            res['g'] = pars[2:4].copy()
            res['g_cov'] = cov[2:4, 2:4].copy()
            res['g_err'] = res['pars_err'][2:4].copy()
            res['T'] = pars[4]
            res['T_err'] = res['pars_err'][4]
            fl = pars[5:].copy()
            fe = res['pars_err'][5:].copy()
            if nband == 1:
                res['flux'], res['flux_err'] = fl[0], fe[0]
            else:
                res['flux'], res['flux_err'] = fl, fe
                res['flux_cov'] = cov[5:, 5:].copy()
            ss = 0.0
            num = 0.0
            chi2 = (f0[npr:]**2).sum()
            for b, v, u, im, sw, area, psf in data:
                gm = GMixModel(list(pars[:5]) + [pars[5 + b]], self.model)
                if psf is not None:
                    gm = gm.convolve(psf)
                m = gm.eval_uv(v, u) * area
                ss += (m**2 * sw**2).sum()
                num += (m * im * sw**2).sum()
            res['s2n_numer'], res['s2n_denom'] = num, np.sqrt(ss)
            res['s2n'] = num / np.sqrt(ss) if ss > 0 else 0.0
            res['chi2per'] = chi2 / dof
            res['lnprob'] = -0.5 * (f0**2).sum()
        return self._finish(res)

    def _finish(self, res):
        res['flagstr'] = F.get_flags_str(res['flags'])
        return res


class PSFFluxFitter(object):
    pass


_ = GMix
