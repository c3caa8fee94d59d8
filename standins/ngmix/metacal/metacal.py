"""metacalibration with galsim: deconvolve, shear, reconvolve, fix noise"""
import copy
import numpy as np
from ..observation import Observation, ObsList, MultiBandObsList
from ..gexceptions import BootPSFFailure, GMixRangeError  # noqa
from ..moments import e2mom
from .. import log as _log

DEFAULT_STEP = 0.01
METACAL_MINIMAL_TYPES = ['noshear', '1p', '1m', '2p', '2m']
METACAL_TYPES = METACAL_MINIMAL_TYPES + ['1p_psf', '1m_psf', '2p_psf', '2m_psf']
LANCZOS_PARS = {'n': 15}


def get_all_metacal(
    obs, psf='gauss', step=DEFAULT_STEP, fixnoise=True, rng=None,
    use_noise_image=False, types=None,
):
    if 'metacal' in _log.faults:
        _log.faults['metacal'](obs)
    if types is None:
        types = list(METACAL_MINIMAL_TYPES)
    for t in types:
        if t not in METACAL_TYPES:
            raise ValueError("bad metacal type: %s" % t)
    if fixnoise:
        odict = _fixnoise(obs, psf, step, rng, use_noise_image, types)
    else:
        odict = _all(obs, psf, step, rng, types)
    _log.emit('metacal', obs=obs, odict=odict, psf=psf, step=step,
              types=list(types), rng=rng)
    return odict


def _all(obs, psf, step, rng, types):
    if isinstance(obs, Observation):
        return _one(obs, psf, step, rng, types)
    new = MultiBandObsList if isinstance(obs, MultiBandObsList) else ObsList
    if not isinstance(obs, (MultiBandObsList, ObsList)):
        raise ValueError("obs must be Observation, ObsList, MultiBandObsList")
    odict = {t: new(meta=copy.deepcopy(obs.meta)) for t in types}
    for o in obs:
        d = _all(o, psf, step, rng, types)
        for t in types:
            odict[t].append(d[t])
    return odict


def _fixnoise(obs, psf, step, rng, use_noise_image, types):
    if use_noise_image:
        noise_obs = _map(obs, _noise_from_plane)
    else:
        noise_obs = _map(obs, lambda o: _sim_noise(o, rng))
    noise_obs = _map(noise_obs, lambda o: _rot(o, 1))
    odict = _all(obs, psf, step, rng, types)
    ndict = _all(noise_obs, psf, step, rng, types)
    for t in types:
        n = _map(ndict[t], lambda o: _rot(o, 3))
        _add(odict[t], n)
    return odict


def _map(obs, fn):
    if isinstance(obs, Observation):
        return fn(obs)
    new = type(obs)(meta=obs.meta)
    for o in obs:
        new.append(_map(o, fn))
    return new


def _noise_from_plane(o):
    n = o.copy()
    n.set_image(o.noise.copy())
    return n


def _sim_noise(o, rng):
    n = o.copy()
    w = o.weight > 0
    if np.any(w):
        nse = rng.normal(size=o.image.shape)
        var = np.zeros(o.image.shape)
        var[w] = 1 / o.weight[w]
        var[~w] = np.median(var[w])
        n.set_image(nse * np.sqrt(var))
    else:
        n.set_image(np.zeros_like(o.image))
    return n


def _rot(o, k):
    """rotate the pixel arrays (square or not); wcs stays"""
    kw = {}
    if o.has_psf():
        kw['psf'] = o.psf.copy()
    return Observation(
        np.rot90(o.image, k=k).copy(), weight=np.rot90(o.weight, k=k).copy(),
        jacobian=o.jacobian, meta=o.meta,
        ignore_zero_weight=o.ignore_zero_weight,
        store_pixels=o.store_pixels, **kw)


def _add(obs, nobs):
    if isinstance(obs, Observation):
        with obs.writeable():
            obs.image += nobs.image
            w = (obs.weight != 0) & (nobs.weight != 0)
            if np.any(w):
                tvar = 1 / obs.weight[w] + 1 / nobs.weight[w]
                obs.weight[w] = 1 / tvar
    else:
        for o, n in zip(obs, nobs):
            _add(o, n)


def _get_gauss_target_psf(psf, flux):
    import galsim
    dk = psf.stepk / 4.0
    small_kval = 1.0e-2
    smaller_kval = 3.0e-3
    kim = psf.drawKImage(scale=dk)
    karr_r = kim.real.array
    nk = karr_r.shape[0]
    kx, ky = np.meshgrid(np.arange(-nk / 2, nk / 2), np.arange(-nk / 2, nk / 2))
    ksq = (kx**2 + ky**2) * dk**2
    ksq_max = np.min(ksq[karr_r < small_kval * psf.flux])
    sigma_sq = -2.0 * np.log(smaller_kval) / ksq_max
    return galsim.Gaussian(sigma=np.sqrt(sigma_sq), flux=flux)


def _get_ellip_dilation(e1, e2, T):
    irr, irc, icc = e2mom(e1, e2, T)
    mat = np.array([[irr, irc], [irc, icc]])
    eigs = np.linalg.eigvals(mat)
    dilation = np.sqrt(eigs.max() / (T / 2.0))
    if dilation > 1.1:
        dilation = 1.1
    return dilation


def get_shear_obj(t, step):
    import galsim
    if t.startswith('1p'):
        return galsim.Shear(g1=step, g2=0)
    if t.startswith('1m'):
        return galsim.Shear(g1=-step, g2=0)
    if t.startswith('2p'):
        return galsim.Shear(g1=0, g2=step)
    if t.startswith('2m'):
        return galsim.Shear(g1=0, g2=-step)
    raise ValueError(t)


def _psf_fit(psf_obs, rng):
    from ..admom import AdmomFitter
    from ..guessers import GMixPSFGuesser
    from ..runners import run_fitter
    from .. import fitting  # noqa
    if np.any(~np.isfinite(psf_obs.image)):
        raise BootPSFFailure("failed to fit psf")
    rng = rng if rng is not None else np.random.RandomState(3)
    res = run_fitter(
        psf_obs, AdmomFitter(rng=rng),
        guesser=GMixPSFGuesser(rng=rng, ngauss=1, guess_from_moms=True), ntry=4)
    if res['flags'] != 0:
        raise BootPSFFailure("failed to fit psf for MetacalFitGaussPSF")
    return res


class _Cache(object):
    pass


def _one(obs, psf, step, rng, types):
    import galsim
    gsp = galsim.GSParams(folding_threshold=5e-3, maximum_fft_size=16384)
    if not obs.has_psf():
        raise ValueError("observation must have a psf observation set")
    wcs = obs.jacobian.get_galsim_wcs()
    pj = obs.psf.jacobian
    pwcs = pj.get_galsim_wcs()
    im = galsim.Image(obs.image.copy(), wcs=wcs)
    pim = galsim.Image(obs.psf.image.copy(), wcs=pwcs)
    # psf centred at its jacobian cen
    pcen = (np.array(obs.psf.image.shape) - 1) / 2.0
    off = galsim.PositionD(pj.col0 - pcen[1], pj.row0 - pcen[0])
    psf_int = galsim.InterpolatedImage(
        pim, x_interpolant='lanczos15', offset=off, gsparams=gsp)
    psf_flux = pim.array.sum()
    pixel = pwcs.toWorld(galsim.Pixel(scale=1))
    image_int = galsim.InterpolatedImage(
        im, x_interpolant='lanczos15', gsparams=gsp)
    psf_inv = galsim.Deconvolve(psf_int / psf_flux)
    deconv = galsim.Convolve(image_int, psf_inv)
    psf_nopix = galsim.Convolve(psf_int, galsim.Deconvolve(pixel))

    g = 2 * step

    def grown(t):
        if isinstance(psf, str) and psf == 'gauss':
            base = _get_gauss_target_psf(psf_nopix, flux=psf_flux)
            return base.dilate(1 + g)
        if isinstance(psf, str) and psf == 'fitgauss':
            res = _psf_fit(obs.psf, rng)
            dil = _get_ellip_dilation(res['e'][0], res['e'][1], res['T'])
            T_dil = res['T'] * dil**2
            s = np.sqrt(T_dil / 2)
            return galsim.Gaussian(sigma=s, flux=psf_flux).dilate(1 + g)
        if isinstance(psf, str) and psf == 'dilate':
            return psf_nopix.dilate(1 + g)
        if isinstance(psf, str):
            raise ValueError("bad psf: %s" % psf)
        if isinstance(psf, dict):
            raise ValueError("bad psf")
        return psf.withFlux(psf_flux).dilate(1 + g)

    out = {}
    target0 = grown('noshear')
    for t in types:
        target = target0
        if t.endswith('_psf'):
            target = target.shear(get_shear_obj(t, step))
        analytic = isinstance(psf, str) and psf in ('gauss', 'fitgauss')
        # gaussian targets include the pixel already
        conv_psf = target if analytic else galsim.Convolve(target, pixel)
        obj = deconv
        if t != 'noshear' and not t.endswith('_psf'):
            obj = deconv.shear(get_shear_obj(t, step))
        conv = galsim.Convolve(obj, conv_psf / psf_flux)
        try:
            newim = galsim.ImageD(im.array.shape[1], im.array.shape[0], wcs=wcs)
            conv.drawImage(image=newim, method='no_pixel')
            npsf = galsim.ImageD(
                pim.array.shape[1], pim.array.shape[0], wcs=pwcs)
            conv_psf.drawImage(image=npsf, method='no_pixel', offset=off)
        except RuntimeError as err:
            raise BootPSFFailure(str(err))
        po = Observation(
            npsf.array.astype('f8'), weight=obs.psf.weight.copy(),
            jacobian=obs.psf.jacobian, meta={})
        new = obs.copy()
        new.set_psf(po)
        new.set_image(newim.array.astype('f8'))
        out[t] = new
    return out
