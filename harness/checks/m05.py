import numpy as np
from scipy import ndimage
from mon import snapshot, global_rng_state

PROPERTY = "M05"
RULE = ("bad-pixel masks (isolated, clumped, lines, discs, checkerboards, "
        "borders, almost all bad, none, all) x images (affine, smooth, rough) "
        "x limits, buffers and isolation radii; non-trivial when some pixel "
        "is bad and some good; distinct by (family, mask kind, shape class, "
        "buffer, isolation radius, bad-fraction decile)")
REQUIRED = ["bad_pixels_filled", "isolated_filled", "refused_fraction",
            "affine_pixels_checked", "smooth_pixels_checked",
            "missing_rng_refused", "locality_cases", "degenerate_cases",
            "view_cases"]
ASSUMPTIONS = [
    "pixels outside the convex hull of the available good pixels are only "
    "required to be finite and independent of bad content",
]


def warmup():
    from metadetect.interpolate import interpolate_image_at_mask
    m = np.zeros((9, 9), dtype=bool)
    m[3:6, 3:6] = True
    interpolate_image_at_mask(
        image=np.ones((9, 9)), bad_msk=m, fill_isolated_with_noise=True,
        weight=1.0, rng=np.random.RandomState(1))


def gen_dims(rng):
    k = rng.randint(4)
    if rng.uniform() < 0.02:
        # thousands of bad and good pixels
        return (int(rng.randint(70, 130)), int(rng.randint(50, 130)))
    if k == 0:
        n = int(rng.randint(6, 30))
        return (n, n)
    if k == 1:
        return (int(rng.randint(3, 9)), int(rng.randint(3, 9)))
    return (int(rng.randint(5, 32)), int(rng.randint(5, 32)))


def gen_mask(rng, dims, kind=None):
    kind = kind or str(rng.choice([
        "sparse", "dense", "disc", "line", "checker", "border", "corner",
        "nearall", "single", "blobs"]))
    ny, nx = dims
    rows, cols = np.mgrid[0:ny, 0:nx]
    m = np.zeros(dims, dtype=bool)
    if kind == "sparse":
        m = rng.uniform(size=dims) < 0.05
    elif kind == "dense":
        m = rng.uniform(size=dims) < rng.uniform(0.3, 0.8)
    elif kind == "disc":
        m = ((rows-rng.uniform(0, ny))**2 + (cols-rng.uniform(0, nx))**2
             < rng.uniform(1, 0.45*min(ny, nx)+1)**2)
    elif kind == "line":
        if rng.uniform() < 0.5:
            m[rng.randint(ny)] = True
        else:
            m[:, rng.randint(nx)] = True
    elif kind == "checker":
        m = (rows + cols) % 2 == 0
    elif kind == "border":
        m[0] = m[-1] = True
        m[:, 0] = m[:, -1] = True
    elif kind == "corner":
        m[:max(1, ny//3), :max(1, nx//3)] = True
    elif kind == "nearall":
        m[:] = True
        k = rng.randint(1, 6)
        m[rng.randint(0, ny, size=k), rng.randint(0, nx, size=k)] = False
    elif kind == "single":
        m[rng.randint(ny), rng.randint(nx)] = True
    elif kind == "blobs":
        for _ in range(rng.randint(1, 5)):
            r, c = rng.randint(ny), rng.randint(nx)
            h = rng.randint(1, 5)
            m[r:r+h, c:c+h] = True
    return m, kind


def view_of(rng, a):
    """the same array as a view into a larger one"""
    dr, dc = rng.randint(0, 3, size=2)
    big = np.zeros((a.shape[0]+dr+1, a.shape[1]+dc+2), dtype=a.dtype)
    v = big[dr:dr+a.shape[0], dc:dc+a.shape[1]]
    v[...] = a
    return v


def gen_image(rng, dims, kind):
    rows, cols = np.mgrid[0:dims[0], 0:dims[1]].astype('f8')
    if kind == "affine":
        a, b, c = rng.uniform(-3, 3, size=3)
        return a*100 + b*rows + c*cols
    if kind == "smooth":
        s = rng.uniform(8, 12)
        return 10*np.sin(rows/s + rng.uniform(6)) * np.cos(cols/s + 1)
    return rng.normal(size=dims, scale=5)


def collinear(good):
    pts = np.array(np.where(good)).T
    return pts.shape[0] < 3 or np.linalg.matrix_rank(pts - pts[0]) < 2


def near_good(m, buff):
    """good pixels within buff (square window) of some bad pixel"""
    k = np.ones((2*buff+1, 2*buff+1), dtype=bool)
    return ndimage.binary_dilation(m, structure=k) & ~m


def isolated(m, iso):
    """bad pixels with no good pixel in their window (clipped to the image)"""
    k = np.ones((2*iso+1, 2*iso+1), dtype=bool)
    return m & ~ndimage.binary_dilation(~m, structure=k)


def call(**kw):
    from metadetect.interpolate import interpolate_image_at_mask
    return interpolate_image_at_mask(**kw)


def hull_interior(good, bad):
    """bad pixels strictly inside the hull of the good ones"""
    from scipy.spatial import Delaunay, QhullError
    pts = np.array(np.where(good)).T
    out = np.zeros(good.shape, dtype=bool)
    if pts.shape[0] < 3:
        return out
    try:
        tri = Delaunay(pts)
    except QhullError:
        return out
    bp = np.array(np.where(bad)).T
    if bp.shape[0]:
        ok = tri.find_simplex(bp) >= 0
        out[bp[ok, 0], bp[ok, 1]] = True
    return out


def fam_good(ctx, rng, i):
    """which pixels may change, and what the new values may depend on"""
    dims = gen_dims(rng)
    m, kind = gen_mask(rng, dims)
    ik = str(rng.choice(["affine", "smooth", "rough"]))
    if m.size > 3000 and rng.uniform() < 0.6:
        ik = "affine"
    image = gen_image(rng, dims, ik)
    dt = str(rng.choice(["f8", "f8", "f4"]))
    # real images reach from background-subtracted counts to bright stars
    amp = float(rng.choice([1, 1, 1, 1e3, 1e7]))
    image = (amp*image).astype(dt)
    if rng.uniform() < 0.4:
        # masks and images often are views into larger arrays
        m = view_of(rng, m)
        image = view_of(rng, image)
        ctx.count("view_cases")
    buff = int(rng.choice([1, 2, 4, 4, 6]))
    iso = int(rng.choice([1, 1, 2, 3]))
    maxfrac = float(rng.choice([0.0, 0.3, 0.5, 0.9, 1.0]))
    if m.size > 3000:
        maxfrac = float(rng.choice([0.9, 1.0, 1.0]))
    ctx.describe(dims=dims, mask=kind, image=ik, dtype=dt, buff=buff,
                 iso=iso, maxfrac=maxfrac, nbad=int(m.sum()), amp=amp)
    nbad = int(m.sum())
    frac = nbad/m.size
    s_im, s_m = snapshot(image), snapshot(m)
    g0 = global_rng_state()
    kw = dict(bad_msk=m, maxfrac=maxfrac, buff=buff, iso_buff=iso)
    got = call(image=image, **kw)
    ctx.check(g0 == global_rng_state(), "global-rng-consumed")
    ctx.unchanged(s_im, image, "input-image-modified")
    ctx.unchanged(s_m, m, "input-mask-modified")

    if frac > maxfrac or nbad == m.size:
        ctx.check(got is None, "too-many-bad-not-refused", frac=frac)
        ctx.count("refused_fraction")
        ctx.nontrivial("refused", kind, maxfrac, int(10*frac))
        return
    use = near_good(m, buff)
    if nbad > 0 and collinear(use):
        # no interpolant exists; None is the documented way out
        ctx.count("degenerate_cases")
        if got is None:
            return
    ctx.require(got is not None, "refused-without-need", frac=frac)
    ctx.require(got.shape == image.shape, "shape-changed")
    ctx.check(got.dtype == image.dtype, "dtype-changed", got=got.dtype)
    ctx.check(got is not image and not np.shares_memory(got, image),
              "result-aliases-input")
    ctx.equal(got[~m], image[~m], "good-pixels-changed")
    ctx.check(np.all(np.isfinite(got)), "non-finite-result")
    ctx.count("bad_pixels_filled", nbad)

    if nbad == 0:
        ctx.count("no_bad_cases")
        return

    scale = np.abs(image[~m]).max() + 1e-3
    rt = 1e-7 if dt == "f8" else 2e-3
    # the content of the bad pixels, NaN included, must not matter
    for fill in (np.nan, 1e12, 0.0, None):
        im2 = image.copy()
        im2[m] = rng.normal(size=nbad)*1e3 if fill is None else fill
        ctx.close(call(image=im2, **kw), got, "bad-content-leaks",
                  rtol=0, atol=rt*scale, fill=fill)
    # nor the content of good pixels out of reach of every bad pixel
    far = ~m & ~use
    if far.any():
        im3 = image.copy()
        im3[far] = np.nan
        got3 = call(image=im3, **kw)
        ctx.close(got3[m], got[m], "distant-pixels-leak", rtol=0,
                  atol=rt*scale)
        ctx.count("locality_cases")
    # linear images are reproduced inside the support
    hull = hull_interior(use, m)
    if ik == "affine":
        ctx.close(got[hull], image[hull], "affine-not-reproduced", rtol=0,
                  atol=(1e-4 if dt == "f8" else 2e-3)*scale)
        ctx.count("affine_pixels_checked", hull.sum())
    elif ik == "smooth":
        near = hull & ndimage.binary_dilation(
            ~m, structure=np.ones((3, 3), dtype=bool))
        # compact holes only: one-pixel-deep bad pixels
        deep = isolated(m, 1)
        if not deep.any():
            ctx.close(got[near], image[near], "smooth-not-reproduced",
                      rtol=0, atol=0.6*amp)
            ctx.count("smooth_pixels_checked", near.sum())
    # scale equivariance (the fill value outside the support is zero)
    got4 = call(image=(image*4).astype(dt), **kw)
    ctx.close(got4, got*4, "not-scale-equivariant", rtol=0,
              atol=4*(1e-4 if dt == "f8" else 2e-3)*scale)
    ctx.nontrivial(kind, ik, dims[0] == dims[1], min(dims) < 9, buff, iso,
                   int(10*frac))
    ctx.sample(ctx.info)


def fam_smooth(ctx, rng, i):
    """small holes in a smooth image are filled accurately"""
    dims = (int(rng.randint(14, 36)), int(rng.randint(14, 36)))
    rows, cols = np.mgrid[0:dims[0], 0:dims[1]].astype('f8')
    s = rng.uniform(5, 9)
    r0, c0 = rng.uniform(0, dims[0]), rng.uniform(0, dims[1])
    amp = 10**rng.uniform(-2, 4)
    image = amp*(np.exp(-0.5*((rows-r0)**2 + 1.7*(cols-c0)**2)/s**2) + 0.02*rows)
    m = np.zeros(dims, dtype=bool)
    for _ in range(rng.randint(1, 6)):
        h, w = rng.randint(1, 4, size=2)
        r = rng.randint(4, dims[0]-4-h+1)
        c = rng.randint(4, dims[1]-4-w+1)
        m[r:r+h, c:c+w] = True
    got = call(image=image.copy(), bad_msk=m)
    ctx.describe(dims=dims, nbad=int(m.sum()), s=s)
    lab, nlab = ndimage.label(ndimage.binary_dilation(m, iterations=2))
    ctx.close(got[m], image[m], "small-hole-inaccurate", rtol=0,
              atol=0.12*amp)
    # typical error is far smaller than the worst case
    ctx.check(np.median(np.abs(got[m]-image[m])) < 0.03*amp,
              "small-hole-typically-inaccurate",
              med=np.median(np.abs(got[m]-image[m]))/amp)
    ctx.count("smooth_pixels_checked", m.sum())
    ctx.nontrivial("smooth", int(m.sum()), int(np.log10(amp)))


def fam_noise(ctx, rng, i):
    """isolated bad pixels become noise from the caller's stream"""
    dims = (int(rng.randint(12, 40)), int(rng.randint(12, 40)))
    m, kind = gen_mask(rng, dims, kind=str(rng.choice(
        ["disc", "blobs", "corner", "dense", "nearall", "border"])))
    iso = int(rng.choice([1, 1, 2, 3]))
    buff = int(rng.choice([2, 4, 4]))
    weight = float(10**rng.uniform(*[(-4, 4), (-10, 10)][rng.randint(2)]))
    image = gen_image(rng, dims, "rough") + 1e6/np.sqrt(weight)
    if rng.uniform() < 0.4:
        m = view_of(rng, m)
        image = view_of(rng, image)
    seed = int(rng.randint(2**31))
    ctx.describe(dims=dims, mask=kind, iso=iso, buff=buff, weight=weight)
    nbad = int(m.sum())
    kw = dict(bad_msk=m, maxfrac=1.0, buff=buff, iso_buff=iso,
              fill_isolated_with_noise=True, weight=weight)
    s_m = snapshot(m)
    if nbad > 0 and nbad < m.size:
        if rng.uniform() < 0.3:
            ctx.expect_raises(
                lambda: call(image=image, **dict(kw, rng=None)),
                (RuntimeError, ValueError), "missing-rng-accepted")
            ctx.expect_raises(
                lambda: call(image=image, **dict(
                    kw, weight=None, rng=np.random.RandomState(1))),
                (RuntimeError, ValueError), "missing-weight-accepted")
            ctx.count("missing_rng_refused")
    g0 = global_rng_state()
    r1 = np.random.RandomState(seed)
    got = call(image=image, rng=r1, **kw)
    ctx.check(g0 == global_rng_state(), "global-rng-consumed")
    ctx.unchanged(s_m, m, "input-mask-modified")
    if nbad == m.size:
        ctx.check(got is None, "all-bad-not-refused")
        return
    isol = isolated(m, iso)
    rest = m & ~isol
    use = near_good(rest, buff) if rest.any() else None
    if got is None:
        ctx.check(rest.any() and collinear(use), "refused-without-need")
        return
    ctx.equal(got[~m], image[~m], "good-pixels-changed")
    ctx.check(np.all(np.isfinite(got)), "non-finite-result")
    again = call(image=image, rng=np.random.RandomState(seed), **kw)
    ctx.equal(again, got, "not-reproducible-from-stream")
    drawn = snapshot(r1) != snapshot(np.random.RandomState(seed))
    ctx.check(drawn == bool(isol.any()), "stream-use", drawn=drawn,
              isolated=int(isol.sum()))
    if isol.any():
        # noise: knows nothing of the image
        im2 = image + 7e6/np.sqrt(weight)
        got2 = call(image=im2, rng=np.random.RandomState(seed), **kw)
        ctx.equal(got2[isol], got[isol], "isolated-pixels-interpolated")
        v = got[isol]*np.sqrt(weight)
        n = v.size
        ctx.check(np.all(np.abs(v) < 7), "noise-amplitude",
                  worst=np.abs(v).max())
        if n >= 30:
            ctx.check(abs(v.mean()) < 6/np.sqrt(n), "noise-mean",
                      mean=v.mean(), n=n)
            ctx.check(abs(v.std()-1) < 6/np.sqrt(2*n), "noise-std",
                      std=v.std(), n=n)
        other = call(image=image, rng=np.random.RandomState(seed+1), **kw)
        ctx.check(not np.array_equal(other[isol], got[isol]),
                  "noise-ignores-stream")
        # and scales with the stated weight
        got4 = call(image=image, rng=np.random.RandomState(seed),
                    **dict(kw, weight=weight*16))
        ctx.close(got4[isol]*4, got[isol], "noise-weight-scaling", rtol=1e-9)
        ctx.count("isolated_filled", isol.sum())
    if not isol.any() and rest.any():
        plain = call(image=image, bad_msk=m, maxfrac=1.0, buff=buff,
                     iso_buff=iso)
        ctx.close(plain, got, "fill-flag-changes-interpolation", rtol=1e-9)
    # pixels that are not isolated are interpolated: without bad content
    if rest.any():
        for fill in (np.nan, 0.0, -1e9):
            im3 = image.copy()
            im3[m] = fill
            got3 = call(image=im3, rng=np.random.RandomState(seed), **kw)
            ctx.require(got3 is not None, "bad-content-decides-refusal")
            ctx.close(got3, got, "bad-content-leaks", rtol=1e-9, fill=fill)
    ctx.nontrivial("noise", kind, iso, buff, int(np.log10(weight)),
                   int(10*m.mean()), bool(isol.any()))
    ctx.sample(ctx.info)


FAMILIES = {
    "good": (fam_good, 900, 15000),
    "smooth": (fam_smooth, 200, 3000),
    "noise": (fam_noise, 500, 8000),
}
