import numpy as np
import common
from mon import snapshot

PROPERTY = "M01"
RULE = ("random and hostile hole lists (off image, grazing, exact ties on the "
        "pixel lattice, tiny, huge, duplicated, empty) x image shapes x "
        "dtypes/byte orders x bit values; a case is non-trivial when some "
        "pixel is marked or a hole lies off the image; distinct by (hole "
        "kind, shape class, symmetrize, bit, marked-fraction decile)")
REQUIRED = ["pixels_marked", "pixels_clear", "offimage_holes",
            "symmetrized_cases", "exact_tie_pixels"]
ASSUMPTIONS = [
    "pixels within 1e-9 relative of a rim but not exactly on it are not "
    "decided (floating-point rounding)",
]


def warmup():
    from metadetect import masking
    for s in (False, True):
        z = np.ones(1)
        masking.make_foreground_bmask(
            xm=z, ym=z, rm=z, dims=(4, 4), symmetrize=s, mask_bit_val=1)


def shape(rng, square=False):
    if rng.uniform() < 0.04:
        # images larger than any chunk or small integer
        n, m = rng.randint(100, 310), rng.randint(20, 310)
        if square:
            return (int(n), int(n))
        return (int(n), int(m)) if rng.uniform() < 0.5 else (int(m), int(n))
    k = rng.randint(5)
    if square or k < 2:
        n = int(rng.choice([1, 2, 3, 5, 8, 13, 24, 37, 60]))
        return (n, n)
    if k == 2:
        return (1, int(rng.randint(1, 40)))
    if k == 3:
        return (int(rng.randint(1, 40)), 1)
    return (int(rng.randint(2, 50)), int(rng.randint(2, 50)))


def fam_mask(ctx, rng, i):
    from metadetect import masking
    sym = rng.uniform() < 0.4
    dims = shape(rng, square=sym)
    xm, ym, rm, kind = common.gen_holes(rng, dims, nmax=8)
    bit = int(2**rng.randint(0, 31))
    if rng.uniform() < 0.1:
        bit |= int(2**rng.randint(0, 31))
    ax, xm = common.recast(rng, xm)
    ay, ym = common.recast(rng, ym)
    ar, rm = common.recast(rng, rm)
    ctx.describe(dims=dims, kind=kind, xm=xm, ym=ym, rm=rm, sym=sym, bit=bit,
                 dtypes=[str(ax.dtype), str(ay.dtype), str(ar.dtype)])
    before = [snapshot(v) for v in (ax, ay, ar)]
    got = masking.make_foreground_bmask(
        xm=ax, ym=ay, rm=ar, dims=dims, symmetrize=bool(sym),
        mask_bit_val=bit)
    ctx.require(got.shape == tuple(dims), "mask-shape", shape=got.shape)
    ctx.require(got.dtype.kind in 'iu', "mask-dtype", dtype=got.dtype)
    for b, v, n in zip(before, (ax, ay, ar), "xyr"):
        ctx.unchanged(b, v, "hole-list-modified", which=n)

    inside, undec = common.ref_hole_mask(xm, ym, rm, dims)
    if sym:
        undec = (undec | np.rot90(undec))
        inside = inside | np.rot90(inside)
        ctx.count("symmetrized_cases")
    dec = ~undec | inside
    got = np.array(got, dtype='i8')
    want = np.where(inside, bit, 0)
    ctx.equal(got[dec], want[dec], "mask-pixels")
    ctx.check(np.all((got == 0) | (got == bit)), "mask-other-bits")

    ctx.count("pixels_marked", inside.sum())
    ctx.count("pixels_clear", (~inside).sum())
    off = (xm < 0) | (xm > dims[1]-1) | (ym < 0) | (ym > dims[0]-1)
    ctx.count("offimage_holes", off.sum())
    rows, cols = np.mgrid[0:dims[0], 0:dims[1]]
    for x, y, r in zip(xm, ym, rm):
        ctx.count("exact_tie_pixels",
                  ((rows-y)**2 + (cols-x)**2 == r*r).sum())
    if inside.any() or off.any():
        ctx.nontrivial(kind, dims[0] == dims[1], min(dims) == 1, sym,
                       bit, int(10*inside.mean()))
        ctx.sample(ctx.info)


def fam_order(ctx, rng, i):
    """the mask does not depend on the order of the holes, nor does a hole
    depend on the others: union over holes taken one at a time"""
    from metadetect import masking
    dims = shape(rng)
    sym = dims[0] == dims[1] and rng.uniform() < 0.5
    xm, ym, rm, kind = common.gen_holes(rng, dims, nmax=12)
    bit = int(2**rng.randint(0, 31))
    ctx.describe(dims=dims, kind=kind, xm=xm, ym=ym, rm=rm, sym=sym, bit=bit)

    def run(ix):
        return np.array(masking.make_foreground_bmask(
            xm=xm[ix], ym=ym[ix], rm=rm[ix], dims=dims,
            symmetrize=bool(sym), mask_bit_val=bit))
    allh = run(np.arange(xm.size))
    perm = run(rng.permutation(xm.size))
    one = np.zeros(dims, dtype=allh.dtype)
    for k in range(xm.size):
        one |= run(np.array([k]))
    ctx.equal(perm, allh, "mask-depends-on-hole-order")
    ctx.equal(one, allh, "mask-not-union-of-holes")
    ctx.count("order_cases")
    if allh.any():
        ctx.nontrivial("order", kind, sym, xm.size)


FAMILIES = {
    "mask": (fam_mask, 2500, 60000),
    "order": (fam_order, 500, 8000),
}
