"""stand-in for lsst.scarlet.lite"""
import numpy as np
from scipy import signal
from . import display  # noqa


def gaussian(sigma, dim):
    y, x = np.mgrid[:dim, :dim] - (dim - 1)/2
    g = np.exp(-0.5*(x**2 + y**2)/sigma**2)
    return (g/g.sum()).astype('f4')


class Box:
    """(height, width) and (y, x) origin"""

    def __init__(self, shape, origin=None):
        self.shape = tuple(int(s) for s in shape)
        self.origin = tuple(int(o) for o in (origin or (0,)*len(self.shape)))

    @property
    def start(self):
        return self.origin

    @property
    def stop(self):
        return tuple(o + s for o, s in zip(self.origin, self.shape))

    def grow(self, radius):
        if isinstance(radius, (int, np.integer)):
            radius = (radius,)*len(self.shape)
        return Box([s + 2*r for s, r in zip(self.shape, radius)],
                   [o - r for o, r in zip(self.origin, radius)])

    def __and__(self, o):
        start = [max(a, b) for a, b in zip(self.origin, o.origin)]
        stop = [min(a, b) for a, b in zip(self.stop, o.stop)]
        return Box([max(0, b - a) for a, b in zip(start, stop)], start)

    def contains(self, p):
        return all(a <= v < b for a, v, b in zip(self.start, p, self.stop))

    def __eq__(self, o):
        return (isinstance(o, Box) and self.shape == o.shape
                and self.origin == o.origin)

    def __hash__(self):
        return hash((self.shape, self.origin))

    def __repr__(self):
        return "Box(%r, %r)" % (self.shape, self.origin)


class Image:
    def __init__(self, data, bands=None, yx0=None):
        self._data = data
        self._bands = tuple(bands)
        self._yx0 = tuple(yx0 or (0, 0))

    data = property(lambda s: s._data)
    bands = property(lambda s: s._bands)
    yx0 = property(lambda s: s._yx0)
    shape = property(lambda s: s._data.shape)
    dtype = property(lambda s: s._data.dtype)
    n_bands = property(lambda s: len(s._bands))

    @property
    def bbox(self):
        return Box(self._data.shape[-2:], self._yx0)

    def project(self, bands=None, bbox=None):
        bbox = bbox or self.bbox
        out = np.zeros((self.n_bands,) + bbox.shape, dtype=self._data.dtype)
        ov = bbox & self.bbox
        if ov.shape[0] and ov.shape[1]:
            dst = tuple(slice(o - b, o - b + s) for o, b, s in zip(
                ov.origin, bbox.origin, ov.shape))
            src = tuple(slice(o - b, o - b + s) for o, b, s in zip(
                ov.origin, self._yx0, ov.shape))
            out[(slice(None),) + dst] = self._data[(slice(None),) + src]
        return Image(out, self._bands, bbox.origin)


class Observation:
    def __init__(self, psfs, bands, bbox):
        self.psfs = psfs
        self.bands = tuple(bands)
        self.bbox = bbox

    @property
    def n_bands(self):
        return len(self.bands)

    def convolve(self, image, mode=None, grad=False):
        if image.n_bands != len(self.bands):
            raise ValueError("bands differ")
        data = np.array([
            signal.convolve2d(image.data[i].astype('f8'),
                              self.psfs[i].astype('f8'), mode='same')
            for i in range(image.n_bands)])
        return Image(data.astype(image.dtype), image.bands, image.yx0)


class Source:
    def __init__(self, id_, center, model):
        self.metadata = {"id": id_}
        self.center = center
        self._model = model

    @property
    def bbox(self):
        return self._model.bbox

    @property
    def flux_weighted_image(self):
        raise NotImplementedError("stand-in: flux_weighted_image")

    def get_model(self, use_flux=False):
        if use_flux:
            raise NotImplementedError("stand-in: use_flux")
        return Image(self._model.data.copy(), self._model.bands,
                     self._model.yx0)


class Blend:
    def __init__(self, sources, observation):
        self.sources = sources
        self.observation = observation


class BlendData:
    def __init__(self, sources, bbox):
        self._sources = sources
        self._bbox = bbox

    def minimal_data_to_blend(self, model_psf=None, psf=None, bands=None,
                              dtype=np.float32):
        if model_psf.ndim != 3 or psf.ndim != 3:
            raise ValueError("psfs must be three dimensional")
        return Blend(self._sources, Observation(psf, bands, self._bbox))


class HierarchicalBlendData:
    def __init__(self, children):
        self.children = children


class ModelData:
    def __init__(self, bands, model_psf, psf):
        self.metadata = {"bands": tuple(bands), "model_psf": model_psf,
                         "psf": psf}
        self.blends = {}

    def add_blend(self, parent, sources, bbox, split=1):
        """split the sources of a parent over several child blends"""
        n = max(1, min(split, len(sources)))
        kids = {}
        for k in range(n):
            part = sources[k::n]
            if part:
                kids[k] = BlendData(part, bbox)
        self.blends[parent] = HierarchicalBlendData(kids)


def make_gauss_source(id_, center, amps, sigma, half, bands):
    y, x = np.mgrid[-half:half+1, -half:half+1]
    g = np.exp(-0.5*(x**2 + y**2)/sigma**2)
    data = (np.asarray(amps, dtype='f8')[:, None, None]*g).astype('f4')
    return Source(id_, tuple(center), Image(
        data, bands, (center[0] - half, center[1] - half)))
