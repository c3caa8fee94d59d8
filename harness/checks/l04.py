import numpy as np
from scipy import signal
import lsim

PROPERTY = "L04"
RULE = ("scenes of 1-9 sources in several blends on 1-4 bands, at and away "
        "from the origin, sources at and over the borders, overlapping and "
        "isolated, masks and bad variances; random histories of up to 25 "
        "operations (nested add-backs, the same source twice, stamps of every "
        "type, size and clipping, observations, models, full models, unknown "
        "ids, exceptions inside the context, changes to returned stamps), the "
        "working image compared to its specification after each; distinct by "
        "(bands, blends, sources, operations)")
REQUIRED = ["operations", "add_backs", "nested", "exceptions_in_context",
            "stamps", "clipped_stamps", "refused_stamps", "model_stamps",
            "observations", "unknown_ids", "full_models", "single_band",
            "border_sources", "overlapping_sources", "offset_cases",
            "extractor_histories", "footprint_stamps", "util_stamps",
            "zero_weight_stamps", "negative_wings", "crowded_blends"]
ASSUMPTIONS = [
    "scarlet models are the stand-in's: an image per source, convolved with "
    "the band's PSF; the reference convolves them itself with scipy",
    "a model's support is where its largest value over the bands is not zero, "
    "as the deblender's own footprints are: kernels with negative wings are "
    "not combined with sources that are missing from a band",
    "restoring is compared to 1e-5 of the largest value involved, as adding "
    "and subtracting in single precision is not exact"]


def ref_model(src, psf, box):
    """convolved model of a source over the whole image"""
    out = np.zeros((psf.shape[0], box.getHeight(), box.getWidth()))
    m = src.get_model()
    y0, x0 = m.yx0
    _, h, w = m.data.shape
    py, px = psf.shape[1]//2, psf.shape[2]//2
    # the part of the model box, grown by the PSF, that is in the image
    ya, yb = max(y0 - py, box.getBeginY()), min(y0 + h + py, box.getEndY())
    xa, xb = max(x0 - px, box.getBeginX()), min(x0 + w + px, box.getEndX())
    for b in range(psf.shape[0]):
        full = np.zeros((yb - ya, xb - xa))
        for y in range(max(ya, y0), min(yb, y0 + h)):
            for x in range(max(xa, x0), min(xb, x0 + w)):
                full[y - ya, x - xa] = m.data[b][y - y0, x - x0]
        conv = signal.convolve2d(full, psf[b].astype('f8'), mode='same')
        out[b, ya - box.getBeginY():yb - box.getBeginY(),
            xa - box.getBeginX():xb - box.getBeginX()] = conv
    return out


class Scene:
    def __init__(self, ctx, rng, single=None):
        from lsst.scarlet import lite as scl
        from lsst.afw import table
        from lsst.afw.detection import Footprint
        from lsst.afw.geom import SpanSet
        from lsst.geom import Box2I, Point2I, Extent2I, Point2D
        from lsst.meas.extensions.scarlet.io.utils import model_footprint
        lsim.new_planes(rng)
        table.ID_START[0] = int(rng.choice([1, 1, 500, 2**33]))
        box = self.box = lsim.random_box(rng, 30, 80)
        if box.getBeginX() != 0:
            ctx.count("offset_cases")
        wcs, scale = lsim.make_wcs(rng, lsim.box_center(box))
        self.wcs, self.scale = wcs, scale
        self.bands = lsim.bands_of(rng, 1, 4 if rng.uniform() < .9 else 6)
        if single:
            self.bands = self.bands[:1]
        nb = len(self.bands)
        if nb == 1:
            ctx.count("single_band")
        unit = lsim.unit(rng)
        noise = float(unit*10**rng.uniform(-2, 1))
        bv = float(rng.choice([0, 0, 0.05]))
        pdim = int(rng.choice([7, 11, 15]))
        exps = [lsim.make_exposure(
            rng, box, wcs, lsim.make_psf(rng, scale, dim=pdim), b,
            noise=noise, dtype='f4', bad_var=bv) for b in self.bands]
        self.mb = lsim.multi(exps)
        if rng.uniform() < 0.15:
            # a corner without usable variance
            for e in self.mb.singles:
                e.variance.array[:12, :12] = 0
        psf = np.array([lsim.gauss_psf(pdim, scale, rng.uniform(0.6, 1.0))
                        for _ in self.bands]).astype('f4')
        # kernels may be negative in the wings; as deblending has it, models
        # then end where their largest value over the bands is zero, so that
        # no band is left empty with them
        wings = rng.uniform() < 0.3
        if wings:
            ctx.count("negative_wings")
            psf -= rng.uniform(0.002, 0.02)*psf.max()
        psf /= psf.sum(axis=(1, 2))[:, None, None]
        self.psf = psf
        cat = table.SourceCatalog()
        data = scl.ModelData(self.bands, scl.gaussian(0.8, 9), psf)
        obs_box = scl.Box((box.getHeight(), box.getWidth()),
                          (box.getBeginY(), box.getBeginX()))
        self.model, self.peak, self.parents, self.fbox = {}, {}, [], {}
        allsrc = []
        for _ in range(int(rng.randint(1, 4))):
            par = cat.addNew()
            made = []
            cx = rng.randint(box.getBeginX(), box.getEndX())
            cy = rng.randint(box.getBeginY(), box.getEndY())
            nin = int(rng.randint(1, 4 if rng.uniform() < 0.8 else 8))
            ctx.count("crowded_blends", int(nin > 3))
            for _ in range(nin):
                x = int(np.clip(cx + rng.randint(-6, 7), box.getBeginX(),
                                box.getEndX() - 1))
                y = int(np.clip(cy + rng.randint(-6, 7), box.getBeginY(),
                                box.getEndY() - 1))
                rec = cat.addNew()
                rec.setParent(par.getId())
                amp = rng.uniform(1, 50, size=nb)*unit
                if nb > 1 and not wings and rng.uniform() < 0.15:
                    amp[rng.randint(nb)] = 0
                made.append(scl.make_gauss_source(
                    rec.getId(), (y, x), amp, rng.uniform(0.8, 2.0),
                    int(rng.randint(2, 7)), self.bands))
                rec.set("deblend_nChild", 0)
                rec._cen = Point2D(x + rng.uniform(-.5, .5),
                                   y + rng.uniform(-.5, .5))
                rec.updateCoord(wcs)
                self.peak[rec.getId()] = (x, y)
                if (min(x - box.getBeginX(), box.getEndX() - 1 - x,
                        y - box.getBeginY(), box.getEndY() - 1 - y) < 5):
                    ctx.count("border_sources")
            par.set("deblend_nChild", len(made))
            fp = Footprint(SpanSet(Box2I(Point2I(int(cx), int(cy)),
                                         Extent2I(1, 1))))
            fp.addPeak(int(cx), int(cy), 1.0)
            par.setFootprint(fp)
            self.parents.append(par.getId())
            data.add_blend(par.getId(), made, obs_box,
                           split=int(rng.randint(1, 3)))
            allsrc += made
        for full in data.blends.values():
            for bd in full.children.values():
                blend = bd.minimal_data_to_blend(
                    model_psf=data.metadata["model_psf"][None],
                    psf=psf, bands=tuple(self.bands))
                for s in blend.sources:
                    rec = cat.find(s.metadata["id"])
                    f = model_footprint(s, blend)
                    if rng.uniform() < 0.3:
                        # the catalogue's footprint may be larger
                        g = f.getBBox()
                        g.grow(2)
                        g.clip(box)
                        f2 = Footprint(SpanSet(g))
                        p = f.getPeaks()[0]
                        f2.addPeak(p.getFx(), p.getFy(), p.getPeakValue())
                        f = f2
                    rec.setFootprint(f)
                    self.fbox[rec.getId()] = f.getBBox()
        for s in allsrc:
            self.model[s.metadata["id"]] = ref_model(s, psf, box)
        tot = sum((np.abs(v).sum(axis=0) > 0).astype(int)
                  for v in self.model.values())
        ctx.count("overlapping_sources", int((tot > 1).any()))
        self.cat, self.data = cat, data
        self.ids = list(self.model)
        for e in self.mb.singles:
            j = self.mb.singles.index(e)
            e.image.array[:, :] += sum(
                v[j] for v in self.model.values()).astype('f4')
        self.orig = [lsim.planes(e) for e in self.mb.singles]
        self.ostate = lsim.mbstate(self.mb)
        self.base = [p[0].astype('f8') - sum(
            v[j] for v in self.model.values())
            for j, p in enumerate(self.orig)]
        self.amp = max(max(np.abs(p[0]).max() for p in self.orig),
                       max(np.abs(v).max() for v in self.model.values()))

    def box_for(self, sid, size, clip):
        """bounds x0, x1, y0, y1 and whether it fits"""
        x, y = self.peak[sid]
        h = size//2
        b = [x - h, x + h + 1, y - h, y + h + 1]
        lim = [self.box.getBeginX(), self.box.getEndX(),
               self.box.getBeginY(), self.box.getEndY()]
        fits = (b[0] >= lim[0] and b[1] <= lim[1] and b[2] >= lim[2]
                and b[3] <= lim[3])
        if clip:
            b = [max(b[0], lim[0]), min(b[1], lim[1]),
                 max(b[2], lim[2]), min(b[3], lim[3])]
        return b, fits

    def cut(self, arr, b):
        return arr[b[2] - self.box.getBeginY():b[3] - self.box.getBeginY(),
                   b[0] - self.box.getBeginX():b[1] - self.box.getBeginX()]


def bounds(box):
    return [box.getBeginX(), box.getEndX(), box.getBeginY(), box.getEndY()]


class Run:
    """executes operations against the subtractor and its specification"""

    def __init__(self, ctx, rng, sc, sub):
        self.ctx, self.rng, self.sc, self.sub = ctx, rng, sc, sub
        self.open = []
        self.n = 0
        self.tol = 1e-5*sc.amp
        self.ops = set()

    def now(self, j):
        return self.sc.base[j] + sum(
            self.sc.model[s][j] for s in self.open)

    def check_state(self, where):
        ctx, sc = self.ctx, self.sc
        ctx.check(lsim.mbstate(sc.mb) == sc.ostate,
                  "original-modified/" + where)
        mb = self.sub.mbexp
        ctx.require(list(mb.bands) == sc.bands, "bands-changed")
        for j, e in enumerate(mb.singles):
            ctx.close(e.image.array, self.now(j), "working-image/" + where,
                      rtol=0, atol=self.tol, band=j, open=list(self.open))
            ctx.equal(e.variance.array, sc.orig[j][1], "working-variance")
            ctx.equal(e.mask.array, sc.orig[j][2], "working-mask")
            ctx.check(e.getWcs() == sc.wcs and e.getPsf() is not None
                      and e.getFilter() == sc.mb.singles[j].getFilter(),
                      "working-components")

    def run(self, depth=0):
        rng = self.rng
        for _ in range(int(rng.randint(2, 9))):
            if self.n > 25:
                return
            self.n += 1
            op = str(rng.choice(["add", "add", "stamp", "stamp", "mbobs",
                                 "model", "full", "bad"]))
            self.ctx.count("operations")
            self.ops.add(op)
            getattr(self, "op_" + op)(depth)
            self.check_state(op)

    def sid(self):
        ids = self.sc.ids
        if self.open and self.rng.uniform() < 0.5:
            return self.open[-1]
        return ids[int(self.rng.randint(len(ids)))]

    def op_add(self, depth):
        ctx, rng = self.ctx, self.rng
        if depth >= 3:
            return
        sid = self.sid()
        fail = rng.uniform() < 0.3
        ctx.count("add_backs")
        if depth:
            ctx.count("nested")

        from lsst.pex.exceptions import LengthError
        from metadetect.lsst import util

        class Boom(Exception):
            pass

        class Stop(BaseException):
            pass
        # among them what getting a stamp raises
        kinds = [Boom, Stop, LengthError, ValueError, KeyboardInterrupt,
                 util.AllZeroWeightError, util.MissingDataError]
        kind = kinds[rng.randint(len(kinds))]
        boom = kind("meant")
        try:
            with self.sub.add_source(sid) as got:
                ctx.check(got is self.sub.mbexp, "yielded-image")
                self.open.append(sid)
                self.check_state("inside")
                self.run(depth + 1)
                if fail:
                    raise boom
        except tuple(kinds) as err:
            if err is not boom:
                raise
            ctx.count("exceptions_in_context")
            ctx.count("exception_" + kind.__name__)
        self.open.remove(sid) if self.open[-1] != sid else self.open.pop()

    def pick(self):
        rng = self.rng
        size = int(rng.choice([1, 2, 7, 16, 24, 33, 48]))
        return self.sid(), size, bool(rng.uniform() < 0.5)

    def expected(self, sid, size, clip):
        b, fits = self.sc.box_for(sid, size, clip)
        return b, (fits or clip)

    def op_stamp(self, depth, typ=None):
        ctx, rng, sc = self.ctx, self.rng, self.sc
        sid, size, clip = self.pick()
        typ = typ or str(rng.choice(["deblended", "original", "model"]))
        kw = dict(stamp_size=size)
        if clip:
            kw["clip"] = True
        if typ != "deblended" or rng.uniform() < 0.5:
            kw["type"] = typ
        whole = rng.uniform() < 0.2
        if whole:
            kw.pop("stamp_size")
            if rng.uniform() < 0.5:
                kw["stamp_size"] = None
            b, ok = bounds(sc.fbox[sid]), True
            ctx.count("footprint_stamps")
        else:
            b, ok = self.expected(sid, size, clip)
        if not ok:
            from lsst.pex.exceptions import LengthError
            ctx.expect_raises(lambda: self.sub.get_stamp(sid, **kw),
                              LengthError, "unfitting-stamp/" + typ)
            ctx.count("refused_stamps")
            return
        out = self.sub.get_stamp(sid, **kw)
        self.stamp_ok(out, sid, b, typ, size, whole)
        if not whole:
            bb = self.sub.get_bbox(sid, stamp_size=size, clip=clip)
            ctx.check(bounds(bb) == b, "get-bbox", got=bounds(bb), want=b)

    def stamp_ok(self, out, sid, b, typ, size, whole):
        ctx, sc = self.ctx, self.sc
        ctx.require(list(out.bands) == sc.bands, "stamp-bands/" + typ)
        gb = bounds(out.getBBox())
        if whole and typ == "model":
            # the model's own box; pixels are compared over that
            ctx.require(gb[0] >= b[0] and gb[1] <= b[1] and gb[2] >= b[2]
                        and gb[3] <= b[3], "stamp-box/model", got=gb, want=b)
            b = gb
        ctx.require(gb == b, "stamp-box/" + typ, got=gb, want=b, size=size)
        if typ != "model":
            ctx.count("stamps")
        else:
            ctx.count("model_stamps")
        if not whole and (b[1] - b[0] < 2*(size//2) + 1
                          or b[3] - b[2] < 2*(size//2) + 1):
            ctx.count("clipped_stamps")
        for j, e in enumerate(out.singles):
            if typ == "deblended":
                want = sc.cut(self.now(j), b)
            elif typ == "original":
                want = sc.cut(sc.orig[j][0], b)
            else:
                want = sc.cut(sc.model[sid][j], b)
            ctx.close(e.image.array, want, "stamp-image/" + typ, rtol=0,
                      atol=self.tol, band=j)
            ctx.check(e.getFilter().bandLabel == sc.bands[j],
                      "stamp-filter/" + typ)
            if typ != "model":
                ctx.equal(e.variance.array, sc.cut(sc.orig[j][1], b),
                          "stamp-variance/" + typ)
                ctx.equal(e.mask.array, sc.cut(sc.orig[j][2], b),
                          "stamp-mask/" + typ)
                ctx.check(e.getWcs() == sc.wcs and e.getPsf() is not None,
                          "stamp-components/" + typ)
            # the pixels are a copy
            e.image.array[:, :] = -12345
            e.mask.array[:, :] = 3
            e.variance.array[:, :] = 77

    def op_model(self, depth):
        if self.rng.uniform() < 0.5:
            return self.op_stamp(depth, "model")
        ctx, sc = self.ctx, self.sc
        sid, size, clip = self.pick()
        b, ok = self.expected(sid, size, clip)
        if not ok:
            from lsst.pex.exceptions import LengthError
            ctx.expect_raises(
                lambda: self.sub.get_model(sid, stamp_size=size),
                LengthError, "unfitting-stamp/get-model")
            return
        out = self.sub.get_model(sid, stamp_size=size, clip=clip)
        self.stamp_ok(out, sid, b, "model", size, False)

    def op_mbobs(self, depth):
        ctx, rng, sc = self.ctx, self.rng, self.sc
        sid, size, clip = self.pick()
        typ = str(rng.choice(["deblended", "deblended", "original",
                              "model"]))
        kw = {} if typ == "deblended" else dict(type=typ)
        b, ok = self.expected(sid, size, clip)
        fn = lambda: self.sub.get_mbobs(  # noqa
            sid, stamp_size=size, clip=clip, **kw)
        obs_ok(ctx, sc, fn, sid, b, ok, typ, self.tol,
               self.now if typ == "deblended" else (
                   (lambda j: sc.orig[j][0]) if typ == "original"
                   else (lambda j: sc.model[sid][j])))

    def op_full(self, depth):
        ctx, sc = self.ctx, self.sc
        out = self.sub.get_full_model()
        ctx.require(list(out.bands) == sc.bands, "full-model-bands")
        ctx.check(out.getBBox() == sc.box, "full-model-box")
        for j, e in enumerate(out.singles):
            ctx.close(e.image.array, sum(v[j] for v in sc.model.values()),
                      "full-model", rtol=0, atol=self.tol)
            e.image.array[:, :] = 9
        ctx.count("full_models")

    def op_bad(self, depth):
        ctx, sc = self.ctx, self.sc
        bad = [sc.parents[0], max(sc.ids) + 1000, -3][
            int(self.rng.randint(3))]
        for name, fn in (
                ("add", lambda: self.sub.add_source(bad).__enter__()),
                ("stamp", lambda: self.sub.get_stamp(bad, stamp_size=3)),
                ("mbobs", lambda: self.sub.get_mbobs(bad, stamp_size=3)),
                ("model", lambda: self.sub.get_model(bad)),
                ("bbox", lambda: self.sub.get_bbox(bad, stamp_size=3))):
            if hasattr(self.sub, {"add": "add_source", "stamp": "get_stamp",
                                  "mbobs": "get_mbobs", "model": "get_model",
                                  "bbox": "get_bbox"}[name]):
                ctx.expect_raises(fn, ValueError, "unknown-source/" + name)
        ctx.count("unknown_ids")


def obs_ok(ctx, sc, fn, sid, b, ok, typ, tol, data):
    from lsst.pex.exceptions import LengthError
    from metadetect.lsst import util
    if not ok:
        ctx.expect_raises(fn, LengthError, "unfitting-stamp/obs")
        ctx.count("refused_stamps")
        return
    va = [sc.cut(p[1], b) for p in sc.orig]
    if not all(np.any(v > 0) and np.isfinite(np.median(v[v > 0]))
               for v in va):
        ctx.expect_raises(fn, util.AllZeroWeightError,
                          "zero-weight-stamp-accepted")
        ctx.count("zero_weight_stamps")
        return
    mbobs = fn()
    ctx.require(type(mbobs).__name__ == "MultiBandObsList"
                and len(mbobs) == len(sc.bands), "observations/" + typ)
    rec = sc.cat.find(sid)
    cen = rec.getCentroid()
    for j, ol in enumerate(mbobs):
        ctx.require(len(ol) == 1, "observations/" + typ)
        ctx.check(ol.meta.get("band") == sc.bands[j], "observation-band")
        o = ol[0]
        want = sc.cut(data(j), b)
        ctx.require(o.image.shape == want.shape, "observation-shape/" + typ,
                    got=o.image.shape, want=want.shape)
        ctx.close(o.image, want, "observation-image/" + typ, rtol=0,
                  atol=tol)
        ctx.equal(o.bmask, sc.cut(sc.orig[j][2], b),
                  "observation-mask/" + typ)
        med = np.median(va[j][va[j] > 0])
        if np.isfinite(med):
            ctx.close(o.weight, np.full(want.shape, 1/med),
                      "observation-weight/" + typ, rtol=1e-5)
        r, c = o.jacobian.get_cen()
        ctx.close(np.array([r + b[2], c + b[0]]), np.array([cen.y, cen.x]),
                  "observation-center/" + typ, rtol=0, atol=1e-4)
        p = np.array(sc.mb.singles[j].getPsf().computeKernelImage(cen).array)
        ctx.close(o.psf.image, p, "observation-psf", rtol=1e-5, atol=1e-8)
    ctx.count("observations")


def fam_history(ctx, rng, i):
    from metadetect.lsst.model_subtractor import ModelSubtractor
    sc = Scene(ctx, rng, single=(i % 6 == 0))
    ctx.describe(bands=sc.bands, box=repr(sc.box), ids=sc.ids,
                 peaks=list(sc.peak.values()))
    sub = ModelSubtractor(sc.mb, sc.cat, sc.data)
    run = Run(ctx, rng, sc, sub)
    run.check_state("built")
    ctx.check(sorted(sub.child_ids()) == sorted(sc.ids), "child-ids")
    ctx.check(sorted(c.getId() for c in sub.children()) == sorted(sc.ids),
              "children")
    # the documented loop over the children
    for src in sub.children():
        sid = src.getId()
        with sub.add_source(sid):
            run.open.append(sid)
            b, _ = sc.box_for(sid, 12, True)
            st = sub.get_stamp(sid, stamp_size=12, clip=True)
            run.stamp_ok(st, sid, b, "deblended", 12, False)
        run.open.pop()
    run.check_state("loop")
    run.run()
    while run.n < 12:
        run.run()
    run.check_state("end")
    ctx.nontrivial(len(sc.bands), len(sc.parents), len(sc.ids),
                   sorted(run.ops))
    ctx.sample(dict(ctx.info, ops=run.n))


def fam_extractor(ctx, rng, i):
    """the stand-in extractor without models"""
    from metadetect.lsst.mbobs_extractor import MBObsExtractor
    from metadetect.lsst import util
    from lsst.pex.exceptions import LengthError
    sc = Scene(ctx, rng, single=(i % 6 == 0))
    ctx.describe(bands=sc.bands, box=repr(sc.box), ids=sc.ids)
    ex = MBObsExtractor(sc.mb, sc.cat)
    tol = 1e-6*sc.amp
    ctx.check(sorted(ex.child_ids()) == sorted(sc.ids), "child-ids")
    ctx.check(sorted(c.getId() for c in ex.children()) == sorted(sc.ids),
              "children")
    for _ in range(10):
        sid = sc.ids[int(rng.randint(len(sc.ids)))]
        size = int(rng.choice([1, 2, 7, 16, 24, 33]))
        clip = bool(rng.uniform() < 0.5)
        b, fits = sc.box_for(sid, size, clip)
        ok = fits or clip
        op = str(rng.choice(["stamp", "mbobs", "util", "bad", "ctx"]))
        ctx.count("operations")
        if op == "bad":
            bad = [sc.parents[0], max(sc.ids) + 1000][int(rng.randint(2))]
            for fn in (lambda: ex.get_stamp(bad, 5),
                       lambda: ex.get_mbobs(bad, 5),
                       lambda: ex.add_source(bad).__enter__()):
                ctx.expect_raises(fn, ValueError, "unknown-source/extractor")
            ctx.count("unknown_ids")
        elif op == "stamp":
            if not ok:
                ctx.expect_raises(
                    lambda: ex.get_stamp(sid, stamp_size=size), LengthError,
                    "unfitting-stamp/extractor")
                ctx.count("refused_stamps")
                continue
            out = ex.get_stamp(sid, stamp_size=size, clip=clip)
            ctx.check(bounds(out.getBBox()) == b, "extractor-stamp-box",
                      got=bounds(out.getBBox()), want=b)
            for j, e in enumerate(out.singles):
                for got, want in zip(lsim.planes(e), sc.orig[j]):
                    ctx.equal(got, sc.cut(want, b), "extractor-stamp-planes")
                e.image.array[:, :] = 4
                e.mask.array[:, :] = 4
            ctx.count("stamps")
        elif op == "ctx":
            with ex.add_source(sid):
                obs_ok(ctx, sc, lambda: ex.get_mbobs(
                    sid, stamp_size=size, clip=clip), sid, b, ok,
                    "extractor", tol, lambda j: sc.orig[j][0])
        else:
            fn = ((lambda: ex.get_mbobs(sid, stamp_size=size, clip=clip))
                  if op == "mbobs" else
                  (lambda: util.get_stamp_mbobs(
                      sc.mb, sc.cat.find(sid), size, clip=clip)))
            obs_ok(ctx, sc, fn, sid, b, ok, "extractor", tol,
                   lambda j: sc.orig[j][0])
            if op == "util":
                ctx.count("util_stamps")
                if ok:
                    bb = util.get_bbox(sc.mb, sc.cat.find(sid), size,
                                       clip=clip)
                    ctx.check(bounds(bb) == b, "util-bbox")
        ctx.check(lsim.mbstate(sc.mb) == sc.ostate,
                  "original-modified/extractor")
    ctx.count("extractor_histories")
    ctx.nontrivial("extractor", len(sc.bands), len(sc.ids))


FAMILIES = {"history": (fam_history, 130, 3500),
            "extractor": (fam_extractor, 70, 2000)}
