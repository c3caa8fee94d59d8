import copy
import contextlib
import numpy as np
from .jacobian import Jacobian, UnitJacobian
from .gexceptions import GMixFatalError

DEFAULT_XINTERP = 'lanczos15'


class MetadataMixin(object):
    @property
    def meta(self):
        return self._meta

    @meta.setter
    def meta(self, meta):
        self.set_meta(meta)

    def set_meta(self, meta):
        if meta is None:
            meta = {}
        if not isinstance(meta, dict):
            raise TypeError("meta data must be in dictionary form")
        self._meta = meta

    def update_meta_data(self, meta):
        self._meta.update(meta)


class Observation(MetadataMixin):
    """An image with weight, jacobian, psf and optional planes.

    As upstream: pixel planes are read-only views outside `writeable()`; the
    pixel list is rebuilt after each change and raises GMixFatalError when no
    weight is positive and zero-weight pixels are ignored.
    """

    def __init__(
        self, image, weight=None, bmask=None, ormask=None, noise=None,
        jacobian=None, gmix=None, psf=None, meta=None, mfrac=None,
        store_pixels=True, ignore_zero_weight=True,
    ):
        self._writeable = False
        self._ignore_zero_weight = ignore_zero_weight
        self._store_pixels = store_pixels
        self._pixels = None
        self.set_image(image, update_pixels=False)
        self.set_weight(weight, update_pixels=False)
        self.set_bmask(bmask)
        self.set_ormask(ormask)
        self.set_noise(noise)
        self.set_mfrac(mfrac)
        self.set_jacobian(jacobian, update_pixels=False)
        self.set_psf(psf)
        self.set_gmix(gmix)
        self.set_meta(meta)
        self.update_pixels()

    def _get_view(self, data):
        view = data.view()
        view.flags.writeable = bool(self._writeable and data.flags.writeable)
        return view

    # planes
    @property
    def image(self):
        return self._get_view(self._image)

    @image.setter
    def image(self, image):
        self.set_image(image)

    @property
    def weight(self):
        return self._get_view(self._weight)

    @weight.setter
    def weight(self, weight):
        self.set_weight(weight)

    @property
    def bmask(self):
        return self._get_view(self._bmask)

    @bmask.setter
    def bmask(self, bmask):
        self.set_bmask(bmask)

    @property
    def ormask(self):
        return self._get_view(self._ormask)

    @ormask.setter
    def ormask(self, ormask):
        self.set_ormask(ormask)

    @property
    def noise(self):
        return self._get_view(self._noise)

    @noise.setter
    def noise(self, noise):
        self.set_noise(noise)

    @property
    def mfrac(self):
        return self._get_view(self._mfrac)

    @mfrac.setter
    def mfrac(self, mfrac):
        self.set_mfrac(mfrac)

    @property
    def jacobian(self):
        return self.get_jacobian()

    @jacobian.setter
    def jacobian(self, jacobian):
        self.set_jacobian(jacobian)

    @property
    def gmix(self):
        return self.get_gmix()

    @gmix.setter
    def gmix(self, gmix):
        self.set_gmix(gmix)

    @property
    def psf(self):
        return self.get_psf()

    @psf.setter
    def psf(self, psf):
        self.set_psf(psf)

    @property
    def pixels(self):
        if self._pixels is None:
            return None
        w = self._weight
        sel = (w > 0) if self._ignore_zero_weight else np.ones(w.shape, bool)
        rows, cols = np.where(sel)
        v, u = self._jacobian.get_vu(row=rows, col=cols)
        out = np.zeros(rows.size, dtype=[
            ('u', 'f8'), ('v', 'f8'), ('area', 'f8'), ('val', 'f8'),
            ('ierr', 'f8'), ('fdiff', 'f8')])
        out['u'], out['v'] = u, v
        out['area'] = self._jacobian.get_area()
        out['val'] = self._image[sel]
        out['ierr'] = np.sqrt(np.clip(w[sel], 0, None))
        return out

    @property
    def store_pixels(self):
        return self._store_pixels

    @property
    def ignore_zero_weight(self):
        return self._ignore_zero_weight

    @ignore_zero_weight.setter
    def ignore_zero_weight(self, val):
        self._ignore_zero_weight = val
        self.update_pixels()

    @staticmethod
    def _own(arr):
        if not arr.flags.writeable:
            arr = arr.copy()
        return arr

    def set_image(self, image, update_pixels=True):
        old = getattr(self, '_image', None)
        image = self._own(np.ascontiguousarray(image, dtype='f8'))
        assert len(image.shape) == 2, "image must be 2d"
        if old is not None:
            assert image.shape == old.shape, (
                "old and new image must have same shape, to maintain "
                "consistency, got %s vs %s" % (image.shape, old.shape))
        self._image = image
        if update_pixels:
            self.update_pixels()

    def set_weight(self, weight, update_pixels=True):
        if weight is not None:
            weight = self._own(np.ascontiguousarray(weight, dtype='f8'))
            assert len(weight.shape) == 2, "weight must be 2d"
            assert weight.shape == self._image.shape, \
                "image and weight must be same shape"
        else:
            weight = np.zeros(self._image.shape) + 1.0
        self._weight = weight
        if update_pixels:
            self.update_pixels()

    def _set_plane(self, name, val, dtype=None):
        attr = '_' + name
        if val is None:
            if hasattr(self, attr):
                delattr(self, attr)
        else:
            if dtype is not None:
                val = np.ascontiguousarray(val, dtype=dtype)
            else:
                val = np.ascontiguousarray(val)
            val = self._own(val)
            assert len(val.shape) == 2, "%s must be 2d" % name
            assert val.shape == self._image.shape, \
                "image and %s must be same shape" % name
            setattr(self, attr, val)

    def set_bmask(self, bmask):
        self._set_plane('bmask', bmask)

    def set_ormask(self, ormask):
        self._set_plane('ormask', ormask)

    def set_noise(self, noise):
        self._set_plane('noise', noise, 'f8')

    def set_mfrac(self, mfrac):
        self._set_plane('mfrac', mfrac, 'f8')

    def has_bmask(self):
        return hasattr(self, '_bmask')

    def has_ormask(self):
        return hasattr(self, '_ormask')

    def has_noise(self):
        return hasattr(self, '_noise')

    def has_mfrac(self):
        return hasattr(self, '_mfrac')

    def set_jacobian(self, jacobian, update_pixels=True):
        if jacobian is None:
            cen = (np.array(self._image.shape) - 1.0) / 2.0
            jac = UnitJacobian(row=cen[0], col=cen[1])
        else:
            assert isinstance(jacobian, Jacobian), \
                "jacobian must be of type Jacobian, got %s" % type(jacobian)
            jac = jacobian.copy()
        self._jacobian = jac
        if update_pixels:
            self.update_pixels()

    def get_jacobian(self):
        return self._jacobian.copy()

    def has_jacobian(self):
        return hasattr(self, '_jacobian')

    def set_psf(self, psf):
        if hasattr(self, '_psf'):
            del self._psf
        if psf is not None:
            assert isinstance(psf, Observation), "psf must be of Observation"
            self._psf = psf

    def get_psf(self):
        if not self.has_psf():
            raise AttributeError("this observation does not have a psf set")
        return self._psf

    def has_psf(self):
        return hasattr(self, '_psf')

    def has_psf_gmix(self):
        return self.has_psf() and self._psf.has_gmix()

    def get_psf_gmix(self):
        if not self.has_psf_gmix():
            raise RuntimeError("this obs has not psf set with a gmix")
        return self._psf.get_gmix()

    def set_gmix(self, gmix):
        if hasattr(self, '_gmix'):
            del self._gmix
        if gmix is not None:
            self._gmix = gmix.copy()

    def get_gmix(self):
        if not self.has_gmix():
            raise RuntimeError("this obs has not gmix set")
        return self._gmix.copy()

    def has_gmix(self):
        return hasattr(self, '_gmix')

    def get_s2n(self):
        isum, vsum, npix = self.get_s2n_sums()
        return isum / np.sqrt(vsum) if vsum > 0 else -9999.0

    def get_s2n_sums(self):
        w = self._weight > 0
        return (self._image[w].sum(), (1 / self._weight[w]).sum(), w.sum())

    @contextlib.contextmanager
    def writeable(self):
        self._writeable = True
        try:
            yield self
        finally:
            self._writeable = False
            self.update_pixels()

    def __enter__(self):
        self._writeable = True
        return self

    def __exit__(self, *a):
        self._writeable = False
        self.update_pixels()

    def update_pixels(self):
        if not self._store_pixels:
            self._pixels = None
            return
        if self._ignore_zero_weight and not np.any(self._weight > 0):
            raise GMixFatalError("no weights > 0")
        self._pixels = True

    def copy(self):
        kw = {}
        for n in ('bmask', 'ormask', 'noise', 'mfrac'):
            if hasattr(self, '_' + n):
                kw[n] = getattr(self, '_' + n).copy()
        if self.has_psf():
            kw['psf'] = self._psf.copy()
        if self.has_gmix():
            kw['gmix'] = self._gmix.copy()
        return Observation(
            self._image.copy(), weight=self._weight.copy(),
            jacobian=self._jacobian.copy(), meta=copy.deepcopy(self._meta),
            store_pixels=self._store_pixels,
            ignore_zero_weight=self._ignore_zero_weight, **kw)


class ObsList(list, MetadataMixin):
    def __init__(self, meta=None):
        super().__init__()
        self.set_meta(meta)

    def append(self, obs):
        assert isinstance(obs, Observation), \
            "obs should be of type Observation, got %s" % type(obs)
        super().append(obs)

    def copy(self):
        new = ObsList(meta=copy.deepcopy(self._meta))
        for o in self:
            new.append(o.copy())
        return new

    def get_s2n(self):
        isum = vsum = 0.0
        for o in self:
            i, v, n = o.get_s2n_sums()
            isum += i
            vsum += v
        return isum / np.sqrt(vsum) if vsum > 0 else -9999.0

    def __setitem__(self, index, obs):
        assert isinstance(obs, Observation)
        super().__setitem__(index, obs)


class MultiBandObsList(list, MetadataMixin):
    def __init__(self, meta=None):
        super().__init__()
        self.set_meta(meta)

    def append(self, obs_list):
        assert isinstance(obs_list, ObsList), \
            "obs_list should be of type ObsList"
        super().append(obs_list)

    def copy(self):
        new = MultiBandObsList(meta=copy.deepcopy(self._meta))
        for o in self:
            new.append(o.copy())
        return new

    def __setitem__(self, index, obs_list):
        assert isinstance(obs_list, ObsList)
        super().__setitem__(index, obs_list)


def get_mb_obs(obs_in):
    if isinstance(obs_in, Observation):
        ol = ObsList()
        ol.append(obs_in)
        mb = MultiBandObsList()
        mb.append(ol)
    elif isinstance(obs_in, ObsList):
        mb = MultiBandObsList()
        mb.append(obs_in)
    elif isinstance(obs_in, MultiBandObsList):
        mb = obs_in
    else:
        raise ValueError("obs should be Observation, ObsList, or MultiBandObsList")
    return mb


def get_kmb_obs(obs_in):
    raise NotImplementedError
