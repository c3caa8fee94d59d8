"""stand-in for lsst.afw.table"""
import numpy as np
from ..geom import Point2D, SpherePoint, radians

# harness hook: first identifier given out by new tables
ID_START = [1]


class Schema:
    def __init__(self):
        self._names = ["id", "coord_ra", "coord_dec", "parent"]

    def addField(self, name, type=None, doc="", units="", size=None, **kw):
        if name not in self._names:
            self._names.append(name)
        return name

    def getNames(self):
        return list(self._names)

    def __contains__(self, n):
        return n in self._names


class IdFactory:
    def __init__(self, start=None):
        self._next = ID_START[0] if start is None else start

    def __call__(self):
        v = self._next
        self._next += 1
        return v

    @staticmethod
    def makeSimple():
        return IdFactory()


class SourceTable:
    def __init__(self, schema, idFactory=None):
        self.schema = schema
        self._ids = idFactory or IdFactory()

    @staticmethod
    def makeMinimalSchema():
        return Schema()

    @staticmethod
    def make(schema, idFactory=None):
        return SourceTable(schema, idFactory)

    def getSchema(self):
        return self.schema

    def getIdFactory(self):
        return self._ids

    def makeRecord(self):
        return SourceRecord(self)


class SourceRecord:
    def __init__(self, table):
        self._table = table
        self._d = {"id": table._ids(), "parent": 0,
                   "coord_ra": np.nan, "coord_dec": np.nan,
                   "deblend_nChild": 0}
        self._cen = Point2D(np.nan, np.nan)
        self._fp = None

    def getTable(self):
        return self._table

    def getId(self):
        return self._d["id"]

    def setId(self, v):
        self._d["id"] = v

    def getParent(self):
        return self._d["parent"]

    def setParent(self, v):
        self._d["parent"] = v

    def getFootprint(self):
        return self._fp

    def setFootprint(self, fp):
        self._fp = fp

    def getCentroid(self):
        return Point2D(self._cen)

    def getX(self):
        return self._cen.x

    def getY(self):
        return self._cen.y

    def getCoord(self):
        return SpherePoint(self._d["coord_ra"], self._d["coord_dec"], radians)

    def setCoord(self, c):
        self._d["coord_ra"] = c.getRa().asRadians()
        self._d["coord_dec"] = c.getDec().asRadians()

    def getRa(self):
        return self.getCoord().getRa()

    def getDec(self):
        return self.getCoord().getDec()

    def updateCoord(self, wcs):
        self.setCoord(wcs.pixelToSky(self.getCentroid()))

    def get(self, name):
        if name == "slot_Centroid_x":
            return self._cen.x
        if name == "slot_Centroid_y":
            return self._cen.y
        return self._d[name]

    __getitem__ = get

    def set(self, name, v):
        self._d[name] = v

    __setitem__ = set

    def assign(self, o):
        i = self._d["id"]
        self._d = dict(o._d)
        self._d["id"] = i
        self._cen = Point2D(o._cen)
        self._fp = o._fp


class SourceCatalog:
    Record = SourceRecord
    Table = SourceTable

    def __init__(self, table=None, records=None):
        if isinstance(table, Schema):
            table = SourceTable(table)
        self.table = table or SourceTable(Schema())
        self._r = list(records or [])

    schema = property(lambda s: s.table.schema)

    def getTable(self):
        return self.table

    def getSchema(self):
        return self.table.schema

    def addNew(self):
        r = self.table.makeRecord()
        self._r.append(r)
        return r

    def append(self, r):
        self._r.append(r)

    def extend(self, rs, deep=False, mapper=None):
        self._r.extend(rs)

    def __len__(self):
        return len(self._r)

    def __iter__(self):
        return iter(self._r)

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return self._r[k]
        if isinstance(k, slice):
            return SourceCatalog(self.table, self._r[k])
        if isinstance(k, str):
            return np.array([r.get(k) for r in self._r])
        k = np.asarray(k)
        if k.dtype == bool:
            k = np.where(k)[0]
        return SourceCatalog(self.table, [self._r[j] for j in k])

    get = __getitem__

    def __contains__(self, r):
        return any(q is r for q in self._r)

    def find(self, value, key=None):
        if key is not None:
            raise NotImplementedError("stand-in: find by key")
        for r in self._r:
            if r.getId() == value:
                return r
        return None

    def isSorted(self, key=None):
        ids = [r.getId() for r in self._r]
        return all(a <= b for a, b in zip(ids, ids[1:]))

    def sort(self, key=None):
        self._r.sort(key=lambda r: r.getId())

    def getChildren(self, parent, *args):
        if isinstance(parent, int):
            return SourceCatalog(self.table, [
                r for r in self._r if r.getParent() == parent])
        return [self.getChildren(p) for p in parent]

    def isContiguous(self):
        return True

    def copy(self, deep=False):
        return SourceCatalog(self.table, self._r)

    def reserve(self, n):
        pass


def updateSourceCoords(wcs, sources, include_covariance=False):
    for s in sources:
        s.updateCoord(wcs)
