import numpy as np
from .util import get_ratio_error
from . import flags as F

MOMENTS_NAME_MAP = {"Mv": 0, "Mu": 1, "M1": 2, "M2": 3, "MT": 4, "MF": 5}


def fwhm_to_sigma(fwhm):
    return fwhm / 2.3548200450309493


def sigma_to_fwhm(sigma):
    return sigma * 2.3548200450309493


def fwhm_to_T(fwhm):
    sigma = fwhm_to_sigma(fwhm)
    return 2 * sigma**2


def T_to_fwhm(T):
    return sigma_to_fwhm(np.sqrt(T / 2.0))


def T_to_r50(T):
    return T_to_fwhm(T) / 2


def r50_to_sigma(r50):
    return fwhm_to_sigma(2 * r50)


def sigma_to_r50(sigma):
    return sigma_to_fwhm(sigma) / 2


def mom2e(Irr, Irc, Icc):
    T = Irr + Icc
    return (Icc - Irr) / T, 2.0 * Irc / T, T


def mom2g(Irr, Irc, Icc):
    from .shape import e1e2_to_g1g2
    e1, e2, T = mom2e(Irr, Irc, Icc)
    return e1e2_to_g1g2(e1, e2) + (T,)


def e2mom(e1, e2, T):
    Irc = e2 * T / 2.0
    Icc = (1 + e1) * T / 2.0
    Irr = (1 - e1) * T / 2.0
    return Irr, Irc, Icc


def g2mom(g1, g2, T):
    from .shape import g1g2_to_e1e2
    e1, e2 = g1g2_to_e1e2(g1, g2)
    return e2mom(e1, e2, T)


def make_mom_result(sums, sums_cov, sums_norm=None):
    mv, mu, m1, m2, mT, mf = range(6)
    sums = np.asarray(sums)
    if len(sums) != 6:
        raise ValueError("moment vector must have 6 elements")
    if sums_cov.shape != (6, 6):
        raise ValueError("moment covariance must be 6x6")
    nan = np.nan
    res = {
        "flags": 0, "flagstr": "",
        "flux": sums[mf], "flux_flags": 0, "flux_flagstr": "",
        "flux_err": nan, "s2n": nan,
        "T": nan, "T_err": nan, "T_flags": 0, "T_flagstr": "",
        "rho4": nan,
        "e1": nan, "e2": nan,
        "e": np.array([nan, nan]), "e_err": np.array([nan, nan]),
        "e_cov": np.diag([nan, nan]),
        "sums": sums, "sums_cov": sums_cov,
        "sums_err": np.array([nan] * 6),
        "sums_norm": sums_norm if sums_norm is not None else nan,
        "pars": np.array([nan] * 6),
    }
    # upstream aliases kept for older releases
    if sums_cov[mf, mf] > 0:
        res["flux_err"] = np.sqrt(sums_cov[mf, mf])
        res["s2n"] = res["flux"] / res["flux_err"]
    else:
        res["flux_flags"] |= F.NONPOS_VAR

    if sums_cov[mT, mT] > 0 and sums_cov[mf, mf] > 0:
        if sums[mf] > 0:
            res["T"] = sums[mT] / sums[mf]
            res["T_err"] = get_ratio_error(
                sums[mT], sums[mf], sums_cov[mT, mT], sums_cov[mf, mf],
                sums_cov[mT, mf])
        else:
            res["T_flags"] |= F.NONPOS_FLUX
    else:
        res["T_flags"] |= F.NONPOS_VAR

    if np.all(np.diagonal(sums_cov)[2:] > 0):
        with np.errstate(invalid='ignore'):
            res["sums_err"] = np.sqrt(np.diagonal(sums_cov))
    else:
        res["flags"] |= F.NONPOS_VAR

    # written so that a NaN flux or size counts as failed
    if not res["flux"] > 0:
        res["flags"] |= F.NONPOS_FLUX
    if not res["T"] > 0:
        res["flags"] |= F.NONPOS_SIZE

    if res["flags"] == 0:
        res["e1"] = sums[m1] / sums[mT]
        res["e2"] = sums[m2] / sums[mT]
        res["e"] = np.array([res["e1"], res["e2"]])
        res["pars"] = np.array([
            0.0, 0.0, res["e1"], res["e2"], res["T"], res["flux"]])
        err = np.zeros(2)
        for i, m in enumerate((m1, m2)):
            err[i] = get_ratio_error(
                sums[m], sums[mT], sums_cov[m, m], sums_cov[mT, mT],
                sums_cov[m, mT])
        if not np.all(np.isfinite(err)):
            res["flags"] |= F.NONPOS_SHAPE_VAR
        else:
            res["e_err"] = err
            res["e_cov"] = np.diag(err**2)

    for p in ("flux_", "T_", ""):
        res[p + "flagstr"] = F.get_flags_str(res[p + "flags"])
    return res


def regularize_mom_shapes(res, fwhm_reg):
    raise NotImplementedError
