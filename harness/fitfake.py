"""Fake fitters with unique, recorded results and a reference combination."""
import numpy as np
import ngmix
import ngmix.prepsfmom

FWHM_FAC = 2.3548200450309493


class FakeFitter:
    """returns what it was told for (band, is_psf) and records every call"""

    def __init__(self, table, kind):
        self.table = table
        self.kind = kind
        self.calls = []

    def go(self, obs, **kw):
        key = (obs.meta["band"], bool(obs.meta.get("is_psf", False)))
        self.calls.append((key, np.array(obs.weight), dict(kw)))
        res = self.table[key]
        if isinstance(res, Exception):
            raise res
        # a fresh dict so that in-place edits cannot leak between calls
        out = {}
        for k, v in res.items():
            out[k] = v.copy() if isinstance(v, np.ndarray) else v
        return out


class FakePrePSF(FakeFitter, ngmix.prepsfmom.PrePSFMom):
    """a pre-PSF fitter: must be told not to deconvolve when run on a PSF"""


def rand_cov(rng, n, scale):
    a = rng.normal(size=(n, n+2))
    c = a.dot(a.T)/(n+2)
    return c*np.outer(scale, scale)


def rand_moments(rng, n=6, norm=True, nan_cen=False, flux=None, T=None):
    """a moments result as the fitters return it"""
    F = flux if flux is not None else rng.uniform(0.5, 300)
    unit = 1.0
    if flux is None and rng.uniform() < 0.15:
        # the units are anybody's choice
        unit = 10**rng.uniform(-6, 6)
        F *= unit
    T = T if T is not None else rng.uniform(0.1, 2)
    e = rng.uniform(-0.4, 0.4, size=2)
    sums = np.zeros(n)
    sums[:2] = rng.normal(size=2)*0.1*F
    sums[2:4] = e*T*F
    sums[4] = T*F
    sums[5] = F
    if n > 6:
        sums[6:] = rng.uniform(1, 3, size=n-6)*F
    s = rng.uniform(0.01, 0.2)
    cov = rand_cov(rng, n, s*np.abs(np.where(sums == 0, unit, sums))
                   + 0.01*unit)
    if nan_cen:
        sums[:2] = np.nan
        cov[:2, :] = 0
        cov[:, :2] = 0
    res = dict(
        flags=0, flagstr="", sums=sums, sums_cov=cov,
        flux=rng.uniform(1, 1000)*unit, flux_err=rng.uniform(0.1, 10)*unit,
        flux_flags=0, T=T, e=e,
    )
    if norm == "nan":
        res["sums_norm"] = np.nan
    elif norm:
        res["sums_norm"] = rng.uniform(0.3, 40)
        if rng.uniform() < 0.15:
            res["sums_norm"] *= 10**rng.uniform(-8, 8)
    # the fitters return numpy numbers, which divide by zero without raising
    for k, v in res.items():
        if isinstance(v, float):
            res[k] = np.float64(v)
    return res


def fake_mbobs(rng, nband, n=8, wkinds=None, bmask=None):
    mbobs = ngmix.MultiBandObsList()
    jac = ngmix.DiagonalJacobian(row=(n-1)/2, col=(n-1)/2, scale=0.263)
    unit = 10**rng.uniform(-8, 8) if rng.uniform() < 0.15 else 1.0
    for b in range(nband):
        wk = wkinds[b] if wkinds is not None else str(
            rng.choice(["flat", "varying", "holes"]))
        w = np.full((n, n), rng.uniform(0.01, 100)*unit)
        if wk in ("varying", "holes"):
            w *= rng.uniform(0.2, 5, size=w.shape)
        if wk == "holes":
            w[rng.uniform(size=w.shape) < 0.08] = 0
            w[n//2, n//2] = w.max()
        kw = {}
        if wk == "zero":
            w[:] = 0
            kw["ignore_zero_weight"] = False
        bm = np.zeros((n, n), dtype='i4')
        if bmask is not None and bmask[b]:
            r, c = rng.randint(n), rng.randint(n)
            bm[r, c] = bmask[b]
            if rng.uniform() < 0.5:
                # masked pixels often carry no weight
                w[r, c] = 0
        psf = ngmix.Observation(
            np.ones((5, 5)), weight=np.ones((5, 5)),
            jacobian=ngmix.DiagonalJacobian(row=2, col=2, scale=0.263),
            meta={"band": b, "is_psf": True})
        obs = ngmix.Observation(
            rng.normal(size=(n, n)), weight=w, bmask=bm, jacobian=jac,
            psf=psf, meta={"band": b}, **kw)
        ol = ngmix.ObsList()
        ol.append(obs)
        mbobs.append(ol)
    return mbobs


def sym_weight(w):
    """zero where any of the four quarter turns is not positive"""
    if not np.any(w <= 0):
        return w.copy()
    bad = w <= 0
    allbad = bad | np.rot90(bad, 1) | np.rot90(bad, 2) | np.rot90(bad, 3)
    return np.where(allbad, 0.0, w)


def ratio_var(a, b, vaa, vbb, vab):
    return vaa/b**2 - 2*a*vab/b**3 + a*a*vbb/b**4


def has_norm(r):
    return "sums_norm" in r and np.isfinite(r["sums_norm"])


def ref_combine(objs, psfs, wgts, fwhm_reg):
    """the documented weighted average over the shear bands"""
    W = float(np.sum(wgts))
    M = np.zeros(6)
    C = np.zeros((6, 6))
    PM = np.zeros(6)
    flux = fvar = 0.0
    for o, p, w in zip(objs, psfs, wgts):
        no = o["sums_norm"] if has_norm(o) else 1.0
        M += w*o["sums"][:6]/no
        C += (w/no)**2*o["sums_cov"][:6, :6]
        flux += w*o["sums"][5]
        fvar += w*w*o["sums_cov"][5, 5]
        npf = p["sums_norm"] if has_norm(p) else 1.0
        if has_norm(o) and has_norm(p):
            ratio = (o["sums"][5]/o["sums_norm"])/(p["sums"][5]/p["sums_norm"])
        else:
            ratio = o["sums"][5]/p["sums"][5]
        PM += w*ratio*p["sums"][:6]/npf
    M, C, PM = M/W, C/W**2, PM/W
    flux, fvar = flux/W, fvar/W**2
    Treg = 2*(fwhm_reg/FWHM_FAC)**2 if fwhm_reg > 0 else 0.0
    out = {}
    out["T"] = M[4]/M[5]
    out["T_err"] = np.sqrt(ratio_var(M[4], M[5], C[4, 4], C[5, 5], C[4, 5]))
    den = M[4] + Treg*M[5]
    dvar = C[4, 4] + 2*Treg*C[4, 5] + Treg**2*C[5, 5]
    out["g"] = M[2:4]/den
    gc = np.zeros(2)
    for k, i in enumerate((2, 3)):
        gc[k] = ratio_var(M[i], den, C[i, i], dvar,
                          C[i, 4] + Treg*C[i, 5])
    out["g_cov"] = np.diag(gc)
    out["s2n"] = flux/np.sqrt(fvar)
    out["psf_T"] = PM[4]/PM[5]
    out["psf_g"] = PM[2:4]/PM[4]
    out["T_ratio"] = out["T"]/out["psf_T"]
    return out
