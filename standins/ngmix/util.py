import numpy as np


def get_ratio_var(a, b, var_a, var_b, cov_ab):
    if b == 0:
        raise ValueError("zero in denominator")
    rsq = (a / b)**2
    if a == 0:
        # limit as upstream's algebra
        return var_a / b**2
    return rsq * (var_a / a**2 + var_b / b**2 - 2 * cov_ab / (a * b))


def get_ratio_error(a, b, var_a, var_b, cov_ab):
    var = get_ratio_var(a, b, var_a, var_b, cov_ab)
    if var < 0:
        var = 0
    return np.sqrt(var)


def srandu(n=None, rng=None):
    return 2.0 * (rng.uniform(size=n) - 0.5)


def format_pars(pars, fmt='%8.3g'):
    return ' '.join(fmt % p for p in pars)


def print_pars(pars, **kw):
    print(format_pars(pars))
