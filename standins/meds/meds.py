import numpy as np


class MEDS(object):
    def __init__(self, *a, **k):
        raise NotImplementedError("file access is not part of the stand-in")

    @property
    def size(self):
        return self._cat.size

    def __len__(self):
        return self.size

    def get_cat(self):
        return self._cat

    def get_image_info(self):
        return self._image_info

    def get_number(self, iobj):
        return self._cat['number'][iobj]

    def _check_indices(self, iobj, icutout=None):
        if iobj >= self._cat.size:
            raise ValueError("object index should be within [0,%s)" % self._cat.size)
        if icutout is not None and icutout >= self._cat['ncutout'][iobj]:
            raise ValueError("requested cutout index %s is out of range" % icutout)

    def get_cutout_list(self, iobj, type='image'):
        return [self.get_cutout(iobj, i, type=type)
                for i in range(self._cat['ncutout'][iobj])]

    def get_jacobian(self, iobj, icutout):
        self._check_indices(iobj, icutout)
        c = self._cat
        return dict(
            row0=c['cutout_row'][iobj, icutout],
            col0=c['cutout_col'][iobj, icutout],
            dudrow=c['dudrow'][iobj, icutout], dudcol=c['dudcol'][iobj, icutout],
            dvdrow=c['dvdrow'][iobj, icutout], dvdcol=c['dvdcol'][iobj, icutout])

    def get_cseg_weight(self, iobj, icutout):
        wt = self.get_cutout(iobj, icutout, type='weight')
        seg = self.get_cutout(iobj, icutout, type='seg')
        num = self._cat['number'][iobj]
        wt[(seg != num) & (seg != 0)] = 0.0
        return wt

    def get_uberseg(self, iobj, icutout):
        wt = self.get_cutout(iobj, icutout, type='weight')
        seg = self.get_cutout(iobj, icutout, type='seg')
        num = self._cat['number'][iobj]
        if not np.any((seg != 0) & (seg != num)):
            return wt
        obj = np.argwhere(seg != 0)
        from scipy.spatial import cKDTree
        rr = np.argwhere(np.ones(seg.shape, bool))
        _, ind = cKDTree(obj).query(rr)
        near = seg[obj[ind, 0], obj[ind, 1]].reshape(seg.shape)
        wt[near != num] = 0.0
        return wt
