import numpy as np
import ngmix
import common
from mon import snapshot

PROPERTY = "S01"
RULE = ("positions inside, on the edge of and outside the image (float64, "
        "float32, scalars, empty) x shear types x steps x world transforms "
        "(plain, rotated, sheared, parity-flipped) x image shapes; "
        "non-trivial for a sheared type with a non-empty list; distinct by "
        "(type, transform kind, dtype, direction)")
REQUIRED = ["round_trips", "formula_checks", "identity_types", "refused",
            "centre_fixed", "driver_form"]
ASSUMPTIONS = [
    "the reduced-shear matrix is (1/sqrt(1-|g|^2)) [[1+g1, g2],[g2, 1-g1]]",
]
TYPES = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}
IDENT = ['noshear', '1p_psf', '1m_psf', '2p_psf', '2m_psf']


def ref(rows, cols, t, jm, cen0, dims, step, inverse):
    """the transform as a matrix in (row, col) about the image centre"""
    g1, g2 = TYPES[t][0]*step, TYPES[t][1]*step
    # in (u, v)
    A = np.array([[1+g1, g2], [g2, 1-g1]])/np.sqrt(1-g1*g1-g2*g2)
    if inverse:
        A = np.array([[1-g1, -g2], [-g2, 1+g1]])/np.sqrt(1-g1*g1-g2*g2)
    # (v, u) = jm (row, col)
    P = np.array([[0, 1.0], [1, 0]])
    M = np.linalg.inv(jm).dot(P).dot(A).dot(P).dot(jm)
    rc, cc = (dims[0]-1)/2, (dims[1]-1)/2
    r = np.atleast_1d(np.asarray(rows, dtype='f8'))-rc
    c = np.atleast_1d(np.asarray(cols, dtype='f8'))-cc
    return M[0, 0]*r + M[0, 1]*c + rc, M[1, 0]*r + M[1, 1]*c + cc


def fam_pos(ctx, rng, i):
    from metadetect import shearpos as sp
    dims = (int(rng.randint(5, 400)), int(rng.randint(5, 400)))
    if rng.uniform() < 0.3:
        dims = (dims[0], dims[0])
    jk = str(rng.choice(["plain", "scaled", "rot", "shear", "general"]))
    jac = common.make_jacobian(rng, dims, jk)
    jm = np.array([[jac.dvdrow, jac.dvdcol], [jac.dudrow, jac.dudcol]])
    n = int(rng.choice([0, 1, 2, 5, 20]))
    if rng.uniform() < 0.02:
        n = int(rng.randint(200, 3000))
    rows = rng.uniform(-5, dims[0]+5, size=n)
    cols = rng.uniform(-5, dims[1]+5, size=n)
    dt = 'f8'
    if rng.uniform() < 0.3:
        dt = 'f4'
        rows, cols = rows.astype('f4'), cols.astype('f4')
    step = float(rng.choice([0.01, 0.01, 0.02, 0.001, 0.05, 0.1, 0.3, 0.5, 0.7,
                             1e-5]))
    t = str(rng.choice(sorted(TYPES) + IDENT))
    form = rng.randint(3)
    usedef = step == 0.01 and rng.uniform() < 0.5
    ctx.describe(dims=dims, jac=repr(jac), t=t, step=step, n=n, dt=dt,
                 form=form)
    obs = None
    if form == 0:
        obs = ngmix.Observation(np.zeros(dims), jacobian=jac)
    kw = {} if usedef else {"step": step}

    def call(which, r, c, tt=t):
        if form == 0:
            f = getattr(sp, which + "_positions_obs")
            ctx.count("driver_form")
            return f(r, c, tt, obs, **kw)
        f = getattr(sp, which + "_positions")
        return f(rows=r, cols=c, shear_str=tt, jac=jac, dims=dims, **kw)
    snaps = (snapshot(rows), snapshot(cols))
    scale = max(dims) + 10
    tol = dict(rtol=0, atol=1e-9*scale*(1 if dt == 'f8' else 1e4))
    fr, fc = call("shear", rows, cols)
    ur, uc = call("unshear", rows, cols)
    ctx.check((snapshot(rows), snapshot(cols)) == snaps, "input-modified")
    if t in IDENT:
        for a, b in ((fr, rows), (ur, rows), (fc, cols), (uc, cols)):
            ctx.equal(a, b, "position-moved-for-unsheared-type", t=t)
        ctx.count("identity_types")
        return
    for (gr, gc), inv in (((fr, fc), False), ((ur, uc), True)):
        wr, wc = ref(rows, cols, t, jm, None, dims, step, inv)
        nm = "unshear" if inv else "shear"
        ctx.require(np.shape(gr) == (n,) and np.shape(gc) == (n,),
                    "shape", got=np.shape(gr))
        ctx.close(gr, wr, nm + "-rows", **tol)
        ctx.close(gc, wc, nm + "-cols", **tol)
    ctx.count("formula_checks")
    # one undoes the other, both ways
    br, bc = call("unshear", fr, fc)
    ctx.close(br, rows, "round-trip-rows", **tol)
    ctx.close(bc, cols, "round-trip-cols", **tol)
    br, bc = call("shear", ur, uc)
    ctx.close(br, rows, "round-trip-rows", **tol)
    ctx.close(bc, cols, "round-trip-cols", **tol)
    ctx.count("round_trips")
    # opposite shears undo each other
    opp = t[0] + ("m" if t[1] == "p" else "p")
    a = call("shear", rows, cols, opp)
    ctx.close(a[0], ur, "opposite-shear-is-not-the-inverse", **tol)
    ctx.close(a[1], uc, "opposite-shear-is-not-the-inverse", **tol)
    # the centre does not move
    cr, cc = (dims[0]-1)/2, (dims[1]-1)/2
    for which in ("shear", "unshear"):
        a = call(which, np.array([cr]), np.array([cc]))
        ctx.close(a[0], [cr], "centre-moves", **tol)
        ctx.close(a[1], [cc], "centre-moves", **tol)
    ctx.count("centre_fixed")
    # scalars
    if n:
        a = call("unshear", float(rows[0]), float(cols[0]))
        ctx.close(np.ravel(a[0])[0], ur[0], "scalar-position", **tol)
        ctx.nontrivial(t, jk, dt, step)
    ctx.sample(ctx.info)


def fam_bad(ctx, rng, i):
    from metadetect import shearpos as sp
    dims = (20, 20)
    jac = common.make_jacobian(rng, dims)
    bad = str(rng.choice(["", "3p", "1", "p1", "g1", "1P", "noshear "]))
    f = [sp.shear_positions, sp.unshear_positions][rng.randint(2)]
    ctx.expect_raises(
        lambda: f(rows=np.ones(2), cols=np.ones(2), shear_str=bad, jac=jac,
                  dims=dims), (ValueError, KeyError, RuntimeError),
        "unknown-type-accepted", bad=bad)
    ctx.count("refused")


FAMILIES = {"pos": (fam_pos, 5000, 100000), "bad": (fam_bad, 60, 200)}
