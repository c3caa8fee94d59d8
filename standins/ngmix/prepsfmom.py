import numpy as np
from .moments import make_mom_result, fwhm_to_sigma
from .observation import Observation


class PrePSFMom(object):
    """pre-PSF moments in Fourier space

    The moment kernels are K(k) and its second derivatives for the round
    filter K; the moments are sums over k of (deconvolved transform)*kernel.
    """

    def __init__(self, fwhm, kernel, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        self.fwhm = fwhm
        self.kind = kernel
        self.pad_factor = pad_factor
        self.ap_rad = ap_rad
        self.fwhm_smooth = fwhm_smooth

    def go(self, obs, return_kernels=False, no_psf=False):
        if not isinstance(obs, Observation):
            raise ValueError("input obs must be an ngmix.Observation")
        if not obs.has_psf() and not no_psf:
            raise RuntimeError("The PSF must be set to measure a pre-PSF moment!")
        psf_obs = None if no_psf else obs.psf
        return self._measure(obs, psf_obs)

    def _kernels(self, ku, kv):
        """flux kernel and (uu, vv, uv) second moment kernels"""
        s2 = fwhm_to_sigma(self.fwhm)**2
        ss2 = fwhm_to_sigma(self.fwhm_smooth)**2 if self.fwhm_smooth else 0.0
        k2 = ku**2 + kv**2
        if self.kind.startswith('ksigma'):
            # (1 - k^2 s2/8... )^4 inside kmax; FT pair of a compact filter
            a = s2 / 8.0
            x = np.clip(1 - a * k2, 0, None)
            f = x**4
            fp = -4 * x**3 * a         # d/d(k2)
            fpp = 12 * x**2 * a**2
        else:
            f = np.exp(-0.5 * k2 * s2)
            fp = -0.5 * s2 * f
            fpp = 0.25 * s2**2 * f
        # u_i u_j  <->  -d2/dk_i dk_j
        uu = -(2 * fp + 4 * ku**2 * fpp)
        vv = -(2 * fp + 4 * kv**2 * fpp)
        uv = -(4 * ku * kv * fpp)
        if ss2 > 0:
            sm = np.exp(-0.5 * k2 * ss2)
            f, uu, vv, uv = f * sm, uu * sm, vv * sm, uv * sm
        return f, uu, vv, uv

    def _measure(self, obs, psf_obs):
        jac = obs.jacobian
        dim = max(obs.image.shape)
        if psf_obs is not None:
            dim = max(dim, max(psf_obs.image.shape))
        n = int(2**np.ceil(np.log2(dim * 2)))

        def ft(o):
            j = o.jacobian
            im = np.fft.fft2(o.image, s=(n, n))
            kr = 2 * np.pi * np.fft.fftfreq(n)
            kc = kr
            ph = np.exp(1j * (kr[:, None] * j.row0 + kc[None, :] * j.col0))
            return im * ph
        kim = ft(obs)
        kr = 2 * np.pi * np.fft.fftfreq(n)
        KR, KC = np.meshgrid(kr, kr, indexing='ij')
        # pixel = cen + Jinv (v,u);  k.x:  (KR,KC) = J^T (kv,ku)
        J = np.array([[jac.dvdrow, jac.dvdcol], [jac.dudrow, jac.dudcol]])
        Jit = np.linalg.inv(J.T)
        kv = Jit[0, 0] * KR + Jit[0, 1] * KC
        ku = Jit[1, 0] * KR + Jit[1, 1] * KC
        f, uu, vv, uv = self._kernels(ku, kv)
        ok = np.abs(f) > 1e-7 * np.abs(f).max()
        if psf_obs is not None:
            kpsf = ft(psf_obs)
            kpsf = kpsf / psf_obs.image.sum()
            amp = np.abs(kpsf)
            ok &= amp > 1e-5
            ikpsf = np.where(ok, 1.0 / np.where(ok, kpsf, 1), 0)
        else:
            ikpsf = np.where(ok, 1.0, 0.0)
        wpos = obs.weight > 0
        tot_var = np.sum(1.0 / obs.weight[wpos]) / wpos.sum() * wpos.size \
            if np.any(wpos) else np.inf
        # integral dk^2/(2pi)^2 with dk from the grid
        dk2 = (2 * np.pi / n)**2 / jac.get_area() / (2 * np.pi)**2
        kd = kim * ikpsf
        kern = [uu - vv, 2 * uv, uu + vv, f]
        s4 = np.array([(kd * k).sum().real * dk2 for k in kern])
        absp = np.abs(ikpsf)**2
        cov4 = np.zeros((4, 4))
        for i in range(4):
            for j in range(4):
                cov4[i, j] = (absp * kern[i] * kern[j]).sum() * dk2**2 * tot_var
        sums = np.full(6, np.nan)
        sums[2:] = s4
        cov = np.zeros((6, 6))
        cov[2:, 2:] = cov4
        norm = (f * ok).sum() * dk2
        res = make_mom_result(sums, cov, sums_norm=norm)
        return res


class KSigmaMom(PrePSFMom):
    def __init__(self, fwhm, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        super().__init__(fwhm, 'ksigma', pad_factor=pad_factor, ap_rad=ap_rad,
                         fwhm_smooth=fwhm_smooth)


class PGaussMom(PrePSFMom):
    def __init__(self, fwhm, pad_factor=4, ap_rad=1.5, fwhm_smooth=0):
        super().__init__(fwhm, 'pgauss', pad_factor=pad_factor, ap_rad=ap_rad,
                         fwhm_smooth=fwhm_smooth)
