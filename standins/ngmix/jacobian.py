import copy
import numpy as np


class Jacobian(object):
    """affine map (row, col) -> (v, u); repr/copy/semantics as upstream"""

    def __init__(self, **kw):
        if 'x' in kw or 'row' in kw:
            if 'x' in kw:
                row, col = kw['y'], kw['x']
            else:
                row, col = kw['row'], kw['col']
        else:
            raise ValueError("send by row,col or x,y")
        if 'wcs' in kw:
            wcs = kw['wcs']
            if not hasattr(wcs, 'dudx'):
                wcs = wcs.jacobian()
            d = dict(dudcol=wcs.dudx, dudrow=wcs.dudy,
                     dvdcol=wcs.dvdx, dvdrow=wcs.dvdy)
        elif 'dudx' in kw:
            d = dict(dudcol=kw['dudx'], dudrow=kw['dudy'],
                     dvdcol=kw['dvdx'], dvdrow=kw['dvdy'])
        else:
            d = {k: kw[k] for k in ('dudcol', 'dudrow', 'dvdcol', 'dvdrow')}
        self._row0 = float(row)
        self._col0 = float(col)
        self._dvdrow = float(d['dvdrow'])
        self._dvdcol = float(d['dvdcol'])
        self._dudrow = float(d['dudrow'])
        self._dudcol = float(d['dudcol'])
        det = self._dvdrow * self._dudcol - self._dvdcol * self._dudrow
        self._det = np.abs(det)
        self._sdet = det
        self._scale = np.sqrt(self._det)

    row0 = property(lambda s: s._row0)
    col0 = property(lambda s: s._col0)
    dvdrow = property(lambda s: s._dvdrow)
    dvdcol = property(lambda s: s._dvdcol)
    dudrow = property(lambda s: s._dudrow)
    dudcol = property(lambda s: s._dudcol)
    det = property(lambda s: s._det)
    scale = property(lambda s: s._scale)
    area = property(lambda s: s._det)
    cen = property(lambda s: (s._row0, s._col0))

    def get_cen(self):
        return self._row0, self._col0

    def get_det(self):
        return self._det

    def get_scale(self):
        return self._scale

    def get_area(self):
        return self._det

    def get_dudrow(self):
        return self._dudrow

    def get_dudcol(self):
        return self._dudcol

    def get_dvdrow(self):
        return self._dvdrow

    def get_dvdcol(self):
        return self._dvdcol

    def get_row0(self):
        return self._row0

    def get_col0(self):
        return self._col0

    def get_vu(self, row, col):
        rd = row - self._row0
        cd = col - self._col0
        return (self._dvdrow * rd + self._dvdcol * cd,
                self._dudrow * rd + self._dudcol * cd)

    __call__ = get_vu

    def get_rowcol(self, v, u):
        row = (self._dudcol * v - self._dvdcol * u) / self._sdet + self._row0
        col = (-self._dudrow * v + self._dvdrow * u) / self._sdet + self._col0
        return row, col

    def set_cen(self, **kw):
        if 'row' in kw:
            row, col = kw['row'], kw['col']
        elif 'y' in kw:
            row, col = kw['y'], kw['x']
        else:
            raise ValueError("expected row=,col= or x=,y=")
        self._row0 = float(row)
        self._col0 = float(col)

    def copy(self):
        return copy.copy(self)

    def get_galsim_wcs(self):
        import galsim
        return galsim.JacobianWCS(
            self._dudcol, self._dudrow, self._dvdcol, self._dvdrow)

    def get_galsim_jacobian(self):
        return self.get_galsim_wcs()

    def __repr__(self):
        fmt = (
            "row0: %-10.5g col0: %-10.5g dvdrow: %-10.5g dvdcol: %-10.5g "
            "dudrow: %-10.5g dudcol: %-10.5g"
        )
        return fmt % (
            self._row0, self._col0, self._dvdrow, self._dvdcol,
            self._dudrow, self._dudcol)


class DiagonalJacobian(Jacobian):
    def __init__(self, scale=1.0, **kw):
        kw = dict(kw)
        kw.update(dudcol=scale, dudrow=0.0, dvdcol=0.0, dvdrow=scale)
        super().__init__(**kw)


class UnitJacobian(DiagonalJacobian):
    def __init__(self, **kw):
        super().__init__(scale=1.0, **kw)
