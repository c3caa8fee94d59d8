import numpy as np
from .shape import g1g2_to_e1e2, e1e2_to_g1g2
from .moments import make_mom_result, fwhm_to_T  # noqa
from .gexceptions import GMixRangeError


class GMix(object):
    """full gaussian mixture: rows (p, row, col, irr, irc, icc)"""

    def __init__(self, ngauss=None, pars=None):
        if pars is not None:
            pars = np.array(pars, dtype='f8')
            if pars.size % 6 != 0:
                raise ValueError("len(pars) should be multiple of 6")
            self._d = pars.reshape(-1, 6).copy()
        elif ngauss is not None:
            self._d = np.zeros((ngauss, 6))
        else:
            raise ValueError("send ngauss or pars")

    def __len__(self):
        return self._d.shape[0]

    def get_data(self):
        dt = [('p', 'f8'), ('row', 'f8'), ('col', 'f8'), ('irr', 'f8'),
              ('irc', 'f8'), ('icc', 'f8'), ('det', 'f8'), ('norm', 'f8'),
              ('pnorm', 'f8')]
        out = np.zeros(len(self), dtype=dt)
        for i, n in enumerate(('p', 'row', 'col', 'irr', 'irc', 'icc')):
            out[n] = self._d[:, i]
        out['det'] = out['irr'] * out['icc'] - out['irc']**2
        out['norm'] = 1.0 / (2 * np.pi * np.sqrt(out['det']))
        out['pnorm'] = out['p'] * out['norm']
        return out

    def get_full_pars(self):
        return self._d.ravel().copy()

    def copy(self):
        return GMix(pars=self._d.ravel())

    def get_flux(self):
        return self._d[:, 0].sum()

    def set_flux(self, flux):
        f = self.get_flux()
        if f == 0:
            raise GMixRangeError("flux is zero")
        self._d[:, 0] *= flux / f

    set_psum = set_flux
    get_psum = get_flux

    def set_norms(self):
        pass

    def get_cen(self):
        p = self._d[:, 0]
        s = p.sum()
        return (p * self._d[:, 1]).sum() / s, (p * self._d[:, 2]).sum() / s

    def set_cen(self, row, col):
        r, c = self.get_cen()
        self._d[:, 1] += row - r
        self._d[:, 2] += col - c

    def _mom(self):
        d = self._d
        p = d[:, 0]
        s = p.sum()
        if s == 0:
            raise GMixRangeError("cannot calculate T due to zero psum")
        r, c = self.get_cen()
        irr = (p * (d[:, 3] + (d[:, 1] - r)**2)).sum() / s
        irc = (p * (d[:, 4] + (d[:, 1] - r) * (d[:, 2] - c))).sum() / s
        icc = (p * (d[:, 5] + (d[:, 2] - c)**2)).sum() / s
        return irr, irc, icc

    def get_T(self):
        irr, irc, icc = self._mom()
        return irr + icc

    def get_e1e2T(self):
        irr, irc, icc = self._mom()
        T = irr + icc
        if T == 0:
            raise GMixRangeError("T is zero")
        return (icc - irr) / T, 2 * irc / T, T

    def get_g1g2T(self):
        e1, e2, T = self.get_e1e2T()
        return e1e2_to_g1g2(e1, e2) + (T,)

    def get_e1e2sigma(self):
        e1, e2, T = self.get_e1e2T()
        return e1, e2, np.sqrt(T / 2)

    def convolve(self, psf):
        out = []
        psum = psf.get_flux()
        pr, pc = psf.get_cen()
        for a in self._d:
            for b in psf._d:
                out.append([
                    a[0] * b[0] / psum, a[1] + (b[1] - pr), a[2] + (b[2] - pc),
                    a[3] + b[3], a[4] + b[4], a[5] + b[5]])
        return GMix(pars=np.array(out).ravel())

    def eval_uv(self, v, u):
        """value at (v,u) offsets"""
        tot = 0.0
        for p, r, c, irr, irc, icc in self._d:
            det = irr * icc - irc**2
            if det < 1e-12:
                raise GMixRangeError("det too low: %g" % det)
            dv, du = v - r, u - c
            chi2 = (icc * dv**2 + irr * du**2 - 2 * irc * dv * du) / det
            tot = tot + p * np.exp(-0.5 * chi2) / (2 * np.pi * np.sqrt(det))
        return tot

    def make_image(self, dims, jacobian=None, fast_exp=False):
        from .jacobian import UnitJacobian
        if jacobian is None:
            jacobian = UnitJacobian(row=0, col=0)
        r, c = np.mgrid[0:dims[0], 0:dims[1]]
        v, u = jacobian.get_vu(r, c)
        return self.eval_uv(v, u) * jacobian.get_area()

    def make_galsim_object(self, Tmin=0, psf=None):
        import galsim
        objs = []
        for p, r, c, irr, irc, icc in self._d:
            T = irr + icc
            e1, e2 = (icc - irr) / T, 2 * irc / T
            g1, g2 = e1e2_to_g1g2(e1, e2)
            det = irr * icc - irc**2
            o = galsim.Gaussian(flux=p, sigma=det**0.25)
            o = o.shear(g1=g1, g2=g2).shift(c, r)
            objs.append(o)
        return galsim.Sum(objs)

    def _sums(self, obs, maxrad):
        jac = obs.jacobian
        rows, cols = np.mgrid[0:obs.image.shape[0], 0:obs.image.shape[1]]
        v, u = jac.get_vu(rows, cols)
        vc, uc = self.get_cen()
        ivar = obs.weight
        dv, du = v - vc, u - uc
        rsq = dv**2 + du**2
        use = (ivar > 0) & (rsq < maxrad**2)
        v, u, rsq, dv, du = v[use], u[use], rsq[use], dv[use], du[use]
        wt = self.eval_uv(v, u) * jac.get_area()
        val = obs.image[use]
        var = 1.0 / ivar[use]
        fs = np.stack([
            v, u, du**2 - dv**2, 2 * dv * du, rsq, np.ones_like(rsq)])
        wd = wt * val
        sums = fs @ wd
        cov = (fs * (wt**2 * var)) @ fs.T
        return dict(
            sums=sums, sums_cov=cov, wsum=wt.sum(), npix=int(use.sum()),
            flags=0, maxrad=maxrad,
            s2n_numer_sum=(wt * val * ivar[use]).sum(),
            s2n_denom_sum=(wt**2 * ivar[use]).sum())

    def get_weighted_sums(self, obs, maxrad, res=None):
        return self._sums(obs, maxrad)

    def get_weighted_moments(self, obs, maxrad):
        r = self._sums(obs, maxrad)
        res = make_mom_result(r["sums"], r["sums_cov"], r["wsum"])
        res["wsum"] = r["wsum"]
        res["npix"] = r["npix"]
        return res

    def get_weighted_sigma(self):
        return np.sqrt(self.get_T() / 2)

    def __repr__(self):
        return "\n".join(
            "p: %-10.5g row: %-10.5g col: %-10.5g irr: %-10.5g irc: %-10.5g "
            "icc: %-10.5g" % tuple(d) for d in self._d)


# approximations to exp and dev used only for completeness
_EXP_P = [0.00061601229677880041, 0.0079461395724623237, 0.053280454055540001,
          0.21797364640726541, 0.45496740582554868, 0.26521634184240478]
_EXP_F = [0.002467115141477932, 0.018147435573256168, 0.07944063151366336,
          0.27137669897479122, 0.79782256866993773, 2.1623306025075739]


class GMixModel(GMix):
    def __init__(self, pars, model):
        pars = np.array(pars, dtype='f8')
        if model not in ('gauss', 'exp', 'turb'):
            raise ValueError("unsupported model %s in stand-in" % model)
        if pars.size != 6:
            raise ValueError("need 6 pars for %s" % model)
        row, col, g1, g2, T, flux = pars
        e1, e2 = g1g2_to_e1e2(g1, g2)
        ps, fs = ([1.0], [1.0]) if model == 'gauss' else (_EXP_P, _EXP_F)
        out = []
        for p, f in zip(ps, fs):
            Ti = T * f
            out.append([
                flux * p, row, col, (Ti / 2) * (1 - e1), (Ti / 2) * e2,
                (Ti / 2) * (1 + e1)])
        super().__init__(pars=np.array(out).ravel())
        self._model = model
        self._pars = pars


def make_gmix_model(pars, model, **kw):
    if model == 'full':
        return GMix(pars=pars)
    return GMixModel(pars, model)


def get_model_npars(model):
    return 6
