import numpy as np
import lsim

PROPERTY = "L10"
RULE = ("noise images of exposures of 60-160 pixels a side with signal, "
        "unusable variances, Poisson variance and amplifier gains; histories "
        "of up to 14 operations on 1-3 bands with 1-6 detections (isolated "
        "and blended): sources shown, nested, exceptions inside, given and "
        "generated noise; every band's planes compared to their "
        "specification after each step; distinct by (entry point, bands, "
        "blends, given noise, operations)")
REQUIRED = ["noise_images", "poisson_removed", "bad_variance_images",
            "reproduced", "operations", "sources_shown", "nested",
            "exceptions_inside", "exceptions_outside", "blended_shown",
            "restored_bands", "given_noise", "generated_noise",
            "plain_replacers", "multiband", "offset_cases"]
ASSUMPTIONS = [
    "statistics of noise are judged at 6 standard errors",
    "footprint bookkeeping of the noise replacer is the stand-in's: all "
    "detections hidden, one shown, the parent's noise put back"]


class Amp:
    def __init__(self, g):
        self._g = g

    def getGain(self):
        return self._g


class Det:
    def __init__(self, gains):
        self._a = [Amp(g) for g in gains]

    def getAmplifiers(self):
        return list(self._a)


def moments(ctx, v, var, mech, **w):
    """zero mean, the variance and shape of white Gaussian noise"""
    v = np.asarray(v, dtype='f8').ravel()
    n = v.size
    sd = np.sqrt(var)
    ctx.check(np.all(np.isfinite(v)), mech + "-not-finite", **w)
    ctx.check(abs(v.mean()) <= 6*sd/np.sqrt(n), mech + "-mean",
              got=float(v.mean()/sd), n=n, **w)
    ctx.check(abs(v.var()/var - 1) <= 6*np.sqrt(2.0/n), mech + "-variance",
              got=float(v.var()), want=float(var), n=n, **w)
    frac = np.mean(np.abs(v) < sd)
    ctx.check(abs(frac - 0.6827) <= 6*np.sqrt(0.6827*0.3173/n),
              mech + "-shape", got=float(frac), **w)


def fam_image(ctx, rng, i):
    from metadetect.lsst import util
    lsim.new_planes(rng)
    box = lsim.random_box(rng, 60, 160)
    ctx.count("offset_cases", int(box.getBeginX() != 0))
    wcs, scale = lsim.make_wcs(rng, lsim.box_center(box))
    dims = (box.getHeight(), box.getWidth())
    sky = float(10**rng.uniform(-2, 2))
    poisson = i % 2 == 0
    gains = rng.uniform(0.5, 8, size=int(rng.choice([1, 2, 16])))
    signal = np.zeros(dims)
    y, x = np.mgrid[:dims[0], :dims[1]]
    for _ in range(int(rng.randint(0, 8))):
        a, b = rng.uniform(0, dims[0]), rng.uniform(0, dims[1])
        signal += sky*10**rng.uniform(0, 3)*np.exp(
            -0.5*((y-a)**2 + (x-b)**2)/rng.uniform(1, 8)**2)
    if poisson and rng.uniform() < 0.5:
        signal += sky*rng.uniform(0, 30)
    exp = lsim.make_exposure(rng, box, wcs, lsim.make_psf(rng, scale), 'r',
                             noise=np.sqrt(sky))
    exp.image.array[:, :] = signal
    var = np.full(dims, sky)*rng.uniform(0.9, 1.1, size=dims)
    if poisson:
        var = var + signal/gains.mean()
    exp.variance.array[:, :] = var
    bad = rng.uniform() < 0.5
    if bad:
        k = rng.uniform(size=dims) < rng.uniform(0, 0.4)
        vals = np.array([np.inf, np.nan])
        exp.variance.array[k] = vals[rng.randint(2, size=k.sum())]
        if rng.uniform() < 0.5:
            k2 = rng.uniform(size=dims) < 0.1
            exp.image.array[k2] = vals[rng.randint(2, size=k2.sum())]
        ctx.count("bad_variance_images")
    exp.setDetector(Det(gains))
    v, s = exp.variance.array.astype('f8'), exp.image.array.astype('f8')
    use = np.isfinite(v) & np.isfinite(s)
    want = np.median(v[use])
    if poisson:
        want = np.median(v[use] - s[use]/gains.mean())
        ctx.count("poisson_removed")
    if not want > 0:
        return
    st = lsim.state(exp)
    seed = int(rng.randint(2**31))
    ctx.describe(dims=dims, sky=sky, poisson=poisson, bad=bad,
                 gains=len(gains), want=float(want))
    g = np.random.get_state()[1].copy()
    r = np.random.RandomState(seed)
    mi = util.get_noise_image(exp, rng=r, remove_poisson=poisson)
    ctx.check(lsim.state(exp) == st, "exposure-modified")
    noise = np.array(mi.image.array)
    ctx.require(noise.shape == dims, "noise-shape", got=noise.shape)
    moments(ctx, noise, want, "noise", poisson=poisson)
    ctx.close(mi.variance.array, np.full(dims, want), "noise-variance-plane",
              rtol=1e-5)
    # white: neighbours are unrelated
    n = noise.size
    for a, b in ((noise[1:], noise[:-1]), (noise[:, 1:], noise[:, :-1])):
        c = np.mean(a*b)/want
        ctx.check(abs(c) <= 6/np.sqrt(n), "noise-correlated", got=float(c))
    again = util.get_noise_image(exp, rng=np.random.RandomState(seed),
                                 remove_poisson=poisson)
    ctx.equal(again.image.array, noise, "noise-not-reproducible")
    other = util.get_noise_image(exp, rng=r, remove_poisson=poisson)
    c = np.mean(np.asarray(other.image.array, 'f8')*noise)/want
    ctx.check(abs(c) <= 6/np.sqrt(n), "noise-repeated", got=float(c))
    ctx.equal(np.random.get_state()[1], g, "global-generator-used")
    ctx.count("noise_images")
    ctx.count("reproduced")
    ctx.nontrivial("image", poisson, bad, len(gains), int(np.log10(sky)))
    ctx.sample(ctx.info)


class Sky:
    """bands with detections, and the specification of their replacement"""

    def __init__(self, ctx, rng, nband=None):
        from lsst.afw import table
        from lsst.afw.detection import Footprint
        from lsst.afw.geom import SpanSet
        lsim.new_planes(rng)
        from lsst.afw.image import Mask
        table.ID_START[0] = int(rng.choice([1, 1, 700, 2**33]))
        box = self.box = lsim.random_box(rng, 50, 120)
        ctx.count("offset_cases", int(box.getBeginX() != 0))
        wcs, scale = lsim.make_wcs(rng, lsim.box_center(box))
        self.bands = lsim.bands_of(rng, 1, 3 if rng.uniform() < .8 else 6)
        if nband:
            self.bands = self.bands[:nband]
        self.dims = (box.getHeight(), box.getWidth())
        exps = []
        self.var = []
        for b in self.bands:
            n = float(10**rng.uniform(-1, 1))
            e = lsim.make_exposure(
                rng, box, wcs, lsim.make_psf(rng, scale, dim=17), b, noise=n,
                image=rng.uniform(50, 100, size=self.dims)*n, dtype='f4')
            self.var.append(np.median(e.variance.array.astype('f8')))
            exps.append(e)
        self.mb = lsim.multi(exps)
        self.exps = list(self.mb.singles)
        cat = self.cat = table.SourceCatalog()
        # disjoint regions, one for each detection
        own = np.zeros(self.dims, dtype=int)
        self.top, self.pix = {}, {}
        todo = []
        cells = [(a, b) for a in range(0, self.dims[0] - 14, 15)
                 for b in range(0, self.dims[1] - 14, 15)]
        rng.shuffle(cells)
        self.blend = 0

        def foot(mask):
            y, x = np.where(mask)
            f = Footprint(SpanSet(y + box.getBeginY(), x + box.getBeginX()))
            f.addPeak(int(x[0]) + box.getBeginX(),
                      int(y[0]) + box.getBeginY(), 1.0)
            return f
        for k in range(min(len(cells), int(rng.randint(1, 7)))):
            a, b = cells[k]
            m = np.zeros(self.dims, bool)
            h, w = rng.randint(3, 15, size=2)
            m[a:a+h, b:b+w] = rng.uniform(size=(h, w)) < rng.choice(
                [1.0, 0.8])
            if not m.any():
                m[a, b] = True
            own[m] = k + 1
            r = cat.addNew()
            r.set("deblend_nChild", 0)
            r.setFootprint(foot(m))
            self.top[r.getId()] = r.getId()
            self.pix[r.getId()] = m
            if m.sum() > 6 and rng.uniform() < 0.5:
                todo.append((r, m))
        for r, m in todo:
            n = int(rng.randint(2, 4))
            part = rng.randint(n, size=self.dims)
            part = np.where(m, part, -1)
            k = 0
            for c in range(n):
                if not (part == c).any():
                    continue
                ch = cat.addNew()
                ch.setParent(r.getId())
                ch.set("deblend_nChild", 0)
                ch.setFootprint(foot(part == c))
                self.top[ch.getId()] = r.getId()
                self.pix[ch.getId()] = part == c
                k += 1
            r.set("deblend_nChild", k)
            self.blend += k > 1
        self.all = own > 0
        self.ids = list(self.top)
        self.orig = [lsim.planes(e) for e in self.exps]
        Mask.addMaskPlane("THISDET")
        Mask.addMaskPlane("OTHERDET")
        self.free = ~np.int32(Mask.getPlaneBitMask("THISDET")
                              | Mask.getPlaneBitMask("OTHERDET"))
        self.noise = [None]*len(self.exps)
        self.shown = []

    def learn(self, ctx, which=None, given=None):
        """the noise now in place of all detections"""
        for j, e in enumerate(self.exps):
            if which is not None and j not in which:
                continue
            im = np.array(e.image.array)
            ctx.equal(im[~self.all], self.orig[j][0][~self.all],
                      "undetected-pixels-replaced", band=j)
            v = im[self.all].astype('f8')
            if given is not None:
                ctx.equal(im[self.all], given[self.all].astype(im.dtype),
                          "given-noise-not-used", band=j)
            elif v.size > 100:
                # far below the signal
                moments(ctx, v, self.var[j], "replacement-noise", band=j)
            self.noise[j] = np.where(self.all, im, 0)

    def check(self, ctx, where, which=None):
        for j, e in enumerate(self.exps):
            if which is not None and j not in which:
                want = self.orig[j][0]
            else:
                want = np.where(self.all, self.noise[j], self.orig[j][0])
                for s in self.shown:
                    m = self.pix[s]
                    want[m] = self.orig[j][0][m]
            ctx.equal(e.image.array, want, "shown-pixels/" + where, band=j,
                      shown=list(self.shown))
            ctx.equal(e.variance.array, self.orig[j][1], "variance-plane",
                      band=j)
            ctx.equal(e.mask.array & self.free, self.orig[j][2] & self.free,
                      "mask-plane", band=j)

    def restored(self, ctx):
        for j, e in enumerate(self.exps):
            ctx.equal(e.image.array, self.orig[j][0], "not-restored", band=j)
            ctx.equal(e.variance.array, self.orig[j][1], "variance-plane",
                      band=j)
            ctx.equal(e.mask.array & self.free, self.orig[j][2] & self.free,
                      "mask-not-restored", band=j)
            ctx.count("restored_bands")


class Stop(BaseException):
    pass


def boom_of(rng):
    """what may end a context: errors of stamps, others, interrupts"""
    from lsst.pex.exceptions import LengthError
    from metadetect.lsst import util
    kinds = [Stop, LengthError, ValueError, RuntimeError, KeyboardInterrupt,
             util.AllZeroWeightError, util.MissingDataError]
    return kinds[rng.randint(len(kinds))]("meant")


def history(ctx, rng, sky, rep, which=None, mb=None):
    """random shows, nested and failing; returns the operations done"""
    ops = set()

    def show(depth):
        # detections shown together have different parents
        busy = {sky.top[s] for s in sky.shown}
        can = [s for s in sky.ids if sky.top[s] not in busy]
        if not can:
            return
        sid = can[int(rng.randint(len(can)))]
        fail = rng.uniform() < 0.25
        boom = boom_of(rng)
        ctx.count("operations")
        ctx.count("blended_shown", int(sky.top[sid] != sid))
        ops.add("nested" if depth else "show")
        if depth:
            ctx.count("nested")
        try:
            if rng.uniform() < 0.75:
                with rep.sourceInserted(sid) as got:
                    if mb is not None:
                        ctx.check(got is mb, "yielded")
                    inside(sid, depth, boom if fail else None)
            else:
                rep.insertSource(sid)
                try:
                    inside(sid, depth, boom if fail else None)
                finally:
                    rep.removeSource(sid)
        except BaseException as err:
            if err is not boom:
                raise
            ops.add("exception")
            ctx.count("exceptions_inside")
        sky.shown.remove(sid)
        sky.check(ctx, "after", which)

    def inside(sid, depth, boom):
        sky.shown.append(sid)
        sky.check(ctx, "inside", which)
        ctx.count("sources_shown")
        if depth < 2 and rng.uniform() < 0.3:
            show(depth + 1)
            sky.check(ctx, "inside-again", which)
        if boom is not None:
            raise boom
    for _ in range(int(rng.randint(2, 9))):
        show(0)
    return ops


def fam_one(ctx, rng, i):
    """one exposure, generated or given noise"""
    from metadetect.lsst import util
    sky = Sky(ctx, rng, nband=1)
    exp = sky.exps[0]
    given, img = None, None
    ctx.describe(dims=sky.dims, n=len(sky.ids), blends=sky.blend, mode=i % 3)
    if i % 3:
        from lsst.afw.image import MaskedImageF
        img = MaskedImageF(sky.box)
        img.image.array[:, :] = rng.normal(size=sky.dims)
        given = np.array(img.image.array)
        ctx.count("given_noise")
    else:
        ctx.count("generated_noise")
    out = rng.uniform() < 0.25
    boom = boom_of(rng)
    if i % 3 == 2:
        rep = util.get_noise_replacer(exp, sky.cat, noise_image=img)
        sky.learn(ctx, given=given)
        for s in sky.ids:
            rep.insertSource(s)
            sky.shown = [s]
            sky.check(ctx, "plain")
            rep.removeSource(s)
            sky.shown = []
            sky.check(ctx, "plain-after")
            ctx.count("operations")
        rep.end()
        ops = {"plain"}
        ctx.count("plain_replacers")
    else:
        r = np.random.RandomState(rng.randint(2**31))
        kw = {} if img is None else dict(noise_image=img)
        try:
            with util.ContextNoiseReplacer(exp, sky.cat, r, **kw) as rep:
                sky.learn(ctx, given=given)
                ops = history(ctx, rng, sky, rep)
                if out:
                    raise boom
        except BaseException as err:
            if err is not boom:
                raise
            ctx.count("exceptions_outside")
    sky.restored(ctx)
    ctx.nontrivial("one", i % 3, sky.blend > 0, sorted(ops), out)


def fam_multi(ctx, rng, i):
    from metadetect.lsst import util
    sky = Sky(ctx, rng)
    ctx.describe(dims=sky.dims, bands=sky.bands, n=len(sky.ids),
                 blends=sky.blend)
    r = np.random.RandomState(rng.randint(2**31))
    out = rng.uniform() < 0.25
    boom = boom_of(rng)
    ops = set()
    explicit = rng.uniform() < 0.2
    try:
        if explicit:
            rep = util.MultibandNoiseReplacer(sky.mb, sky.cat, r)
            sky.learn(ctx)
            ops = history(ctx, rng, sky, rep, mb=sky.mb)
            rep.end()
        else:
            with util.MultibandNoiseReplacer(
                    mbexp=sky.mb, sources=sky.cat, rng=r) as rep:
                sky.learn(ctx)
                ops = history(ctx, rng, sky, rep, mb=sky.mb)
                if out:
                    raise boom
    except BaseException as err:
        if err is not boom:
            raise
        ctx.count("exceptions_outside")
    sky.restored(ctx)
    # the bands' noise is not the same noise
    for j in range(1, len(sky.bands)):
        a = sky.noise[0][sky.all]/np.sqrt(sky.var[0])
        b = sky.noise[j][sky.all]/np.sqrt(sky.var[j])
        if a.size > 100:
            ctx.check(abs(np.mean(a*b)) <= 6/np.sqrt(a.size),
                      "bands-share-noise", got=float(np.mean(a*b)))
    ctx.count("multiband", int(len(sky.bands) > 1))
    ctx.count("generated_noise")
    ctx.nontrivial("multi", len(sky.bands), sky.blend > 0, sorted(ops), out)


FAMILIES = {"image": (fam_image, 80, 1200), "one": (fam_one, 60, 1500),
            "multi": (fam_multi, 60, 1500)}
