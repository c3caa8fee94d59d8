"""stand-in for sxdes over the real sep library"""
import numpy as np
import sep
from ngmix import log as _log

DETECT_THRESH = 0.8
_K = np.array([
    [0.004963, 0.021388, 0.051328, 0.068707, 0.051328, 0.021388, 0.004963],
    [0.021388, 0.092163, 0.221178, 0.296069, 0.221178, 0.092163, 0.021388],
    [0.051328, 0.221178, 0.530797, 0.710525, 0.530797, 0.221178, 0.051328],
    [0.068707, 0.296069, 0.710525, 0.951108, 0.710525, 0.296069, 0.068707],
    [0.051328, 0.221178, 0.530797, 0.710525, 0.530797, 0.221178, 0.051328],
    [0.021388, 0.092163, 0.221178, 0.296069, 0.221178, 0.092163, 0.021388],
    [0.004963, 0.021388, 0.051328, 0.068707, 0.051328, 0.021388, 0.004963]])
SX_CONFIG = {
    'deblend_cont': 0.00001, 'deblend_nthresh': 64, 'minarea': 4,
    'filter_type': 'conv', 'filter_kernel': _K,
}


def run_sep(*args, **kw):
    scripted = _log.faults.get('run_sep')
    if scripted is not None:
        return scripted(*args, **kw)
    return _run_sep(*args, **kw)


def _run_sep(image, noise, config=SX_CONFIG, thresh=DETECT_THRESH, mask=None):
    image = np.ascontiguousarray(image, dtype='f8')
    objs, seg = sep.extract(
        image, thresh, err=noise, mask=mask, segmentation_map=True, **config)
    extra = [
        ('number', 'i4'), ('flux_auto', 'f8'), ('fluxerr_auto', 'f8'),
        ('flux_radius', 'f8'), ('flags_auto', 'i4'), ('kron_radius', 'f8'),
        ('isoarea_image', 'f4'), ('iso_radius', 'f4')]
    cat = np.zeros(objs.size, dtype=objs.dtype.descr + extra)
    for n in objs.dtype.names:
        cat[n] = objs[n]
    cat['number'] = np.arange(1, cat.size + 1)
    if cat.size > 0:
        ok = (cat['a'] > 0) & (cat['b'] > 0)
        cat['isoarea_image'] = objs['npix']
        cat['iso_radius'] = np.sqrt(objs['npix'] / np.pi)
        if np.any(ok):
            # single precision can exceed a quarter turn, which sep refuses
            th = np.clip(np.float64(cat['theta']), -np.pi/2, np.pi/2)
            kr, kf = sep.kron_radius(
                image, cat['x'][ok], cat['y'][ok], cat['a'][ok], cat['b'][ok],
                th[ok], 6.0, mask=mask)
            r = np.clip(2.5 * kr, 3.5, None)
            cat['kron_radius'][ok] = kr
            fl, fe, ff = sep.sum_ellipse(
                image, cat['x'][ok], cat['y'][ok], cat['a'][ok], cat['b'][ok],
                th[ok], r, subpix=1, err=noise, mask=mask)
            cat['flux_auto'][ok] = fl
            cat['fluxerr_auto'][ok] = fe
            cat['flags_auto'][ok] = kf | ff
            rad, rf = sep.flux_radius(
                image, cat['x'][ok], cat['y'][ok], 6.0 * cat['a'][ok], 0.5,
                normflux=fl, subpix=5, mask=mask)
            cat['flux_radius'][ok] = rad
    relabel = _log.faults.get('sep_relabel')
    if relabel is not None:
        # an extractor that numbers its segments some other way
        cat, seg = relabel(cat, seg)
    _log.emit('run_sep', image=image, noise=noise, mask=mask, thresh=thresh,
              config=config, cat=cat, seg=seg)
    return cat, seg
