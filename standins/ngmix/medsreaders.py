import logging
import numpy as np
import meds
from .observation import Observation, ObsList, MultiBandObsList
from .jacobian import Jacobian
from .gexceptions import GMixFatalError

logger = logging.getLogger(__name__)


class NGMixMEDS(meds.MEDS):
    def get_mbobs(self, iobj, weight_type='weight'):
        mb = MultiBandObsList()
        mb.append(self.get_obslist(iobj, weight_type=weight_type))
        return mb

    def get_mbobs_list(self, indices=None, weight_type='weight'):
        if indices is None:
            indices = range(self._cat.size)
        return [self.get_mbobs(i, weight_type=weight_type) for i in indices]

    def get_obslist(self, iobj, weight_type='weight'):
        obslist = ObsList()
        for icut in range(self._cat['ncutout'][iobj]):
            try:
                obslist.append(
                    self.get_obs(iobj, icut, weight_type=weight_type))
            except GMixFatalError:
                logger.debug('zero weight observation found, skipping')
        obslist.meta['id'] = self._cat['id'][iobj]
        return obslist

    def get_obs(self, iobj, icutout, weight_type='weight'):
        im = self.get_cutout(iobj, icutout, type='image')
        kw = {}
        for t in ('bmask', 'ormask', 'noise', 'mfrac'):
            # optional planes, absent ones are skipped
            try:
                kw[t] = self.get_cutout(iobj, icutout, type=t)
            except Exception:
                pass
        wt = self._get_wt(iobj, icutout, weight_type)
        jac = self.get_ngmix_jacobian(iobj, icutout)
        c = self._cat
        meta = dict(
            id=c['id'][iobj], icut=icutout,
            orig_start_row=c['orig_start_row'][iobj, icutout],
            orig_start_col=c['orig_start_col'][iobj, icutout])
        psf = None
        if self.has_psf():
            psf = self.get_psf_obs(iobj, icutout)
        return Observation(im, weight=wt, meta=meta, jacobian=jac, psf=psf, **kw)

    def _get_wt(self, iobj, icutout, wt):
        if wt == 'weight':
            return self.get_cutout(iobj, icutout, type='weight')
        if wt == 'uberseg':
            return self.get_uberseg(iobj, icutout)
        if wt in ('cseg', 'cseg-canonical'):
            return self.get_cseg_weight(iobj, icutout)
        raise ValueError("bad weight type '%s'" % wt)

    def get_ngmix_jacobian(self, iobj, icutout):
        jd = self.get_jacobian(iobj, icutout)
        return Jacobian(
            row=jd['row0'], col=jd['col0'], dudrow=jd['dudrow'],
            dudcol=jd['dudcol'], dvdrow=jd['dvdrow'], dvdcol=jd['dvdcol'])

    def get_psf_obs(self, iobj, icutout):
        psf_im = self.get_psf(iobj, icutout)
        noise = psf_im.max() / 1000.0
        weight = psf_im * 0 + 1.0 / noise**2
        c = self._cat
        jd = self.get_jacobian(iobj, icutout)
        jac = Jacobian(
            row=c['psf_cutout_row'][iobj, icutout],
            col=c['psf_cutout_col'][iobj, icutout],
            dudrow=jd['dudrow'], dudcol=jd['dudcol'], dvdrow=jd['dvdrow'],
            dvdcol=jd['dvdcol'])
        return Observation(psf_im, weight=weight, jacobian=jac)


class MultiBandNGMixMEDS(object):
    def __init__(self, mlist):
        self.mlist = mlist
        s = mlist[0].size
        for m in mlist[1:]:
            if m.size != s:
                raise ValueError("sizes of meds files do not match")

    @property
    def size(self):
        return self.mlist[0].size

    def get_mbobs(self, iobj, weight_type='weight'):
        mb = MultiBandObsList()
        for m in self.mlist:
            mb.append(m.get_obslist(iobj, weight_type=weight_type))
        return mb

    def get_mbobs_list(self, indices=None, weight_type='weight'):
        if indices is None:
            indices = range(self.size)
        return [self.get_mbobs(i, weight_type=weight_type) for i in indices]

    def __getitem__(self, i):
        return self.get_mbobs(i)


_ = np
