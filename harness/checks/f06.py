import numpy as np
import fitfake as ff  # noqa
from mon import snapshot

PROPERTY = "F06"
RULE = ("lists of 1-4 measurement tables (or None) from different models, "
        "lengths 0-6, consistent or not in length and in shear-band labels; "
        "non-trivial when at least two tables are joined or refused; "
        "distinct by (kinds, lengths, outcome)")
REQUIRED = ["joined", "refused_length", "refused_bands", "all_none",
            "single", "zero_rows", "refused_none", "structs"]
ASSUMPTIONS = ["models in one combination have different names"]
MODELS = ["wmom", "ksigma", "pgauss", "am", "gauss", "wmom_reg0.80"]


def table(rng, model, n, nband, sb):
    from metadetect.fitting import get_wavg_output_struct
    rows = [get_wavg_output_struct(nband, model, shear_bands=sb)
            for _ in range(n)]
    if n == 0:
        t = get_wavg_output_struct(nband, model, shear_bands=sb)[:0]
    else:
        t = np.hstack(rows)
    for nme in t.dtype.names:
        if nme == "shear_bands":
            continue
        if "flags" in nme:
            t[nme] = rng.randint(0, 2**30, size=t[nme].shape)
        else:
            t[nme] = rng.normal(size=t[nme].shape)
            if rng.uniform() < 0.2:
                t[nme] = np.nan
    return t


def fam_combine(ctx, rng, i):
    from metadetect.fitting import combine_fit_res
    nt = int(rng.randint(1, 5))
    models = [str(m) for m in rng.permutation(MODELS)[:nt]]
    n = int(rng.randint(0, 7))
    nband = int(rng.randint(1, 5))
    sb = sorted(int(b) for b in rng.permutation(nband)[
        :int(rng.randint(1, nband+1))])
    bad = str(rng.choice(["none", "none", "len", "bands", "nonemix",
                          "allnone"]))
    tabs = [table(rng, m, n, nband, sb) for m in models]
    k = int(rng.randint(nt))
    want = "join"
    if bad == "len" and nt > 1:
        tabs[k] = table(rng, models[k], n+1, nband, sb)
        want = "refuse"
        ctx.count("refused_length")
    elif bad == "bands" and nt > 1 and n > 0:
        other = [b for b in range(6)][:max(1, (len(sb) % 3) + 1)]
        if other == sb:
            other = other + [5]
        tabs[k] = table(rng, models[k], n, 6, other)
        if rng.uniform() < 0.5:
            # only one row differs
            t = table(rng, models[k], n, nband, sb)
            t["shear_bands"][rng.randint(n)] = "9"
            tabs[k] = t
        want = "refuse"
        ctx.count("refused_bands")
    elif bad == "nonemix" and nt > 1:
        tabs[k] = None
        want = "refuse" if n > 0 else "join"
        if n > 0:
            ctx.count("refused_none")
    elif bad == "allnone":
        tabs = [None]*nt
        want = "none"
        ctx.count("all_none")
    ctx.describe(models=models, n=n, nband=nband, bad=bad, want=want, k=k)
    snaps = [None if t is None else snapshot(t) for t in tabs]
    if want == "refuse":
        ctx.expect_raises(lambda: combine_fit_res(tabs), RuntimeError,
                          "inconsistent-tables-joined/" + bad)
        ctx.nontrivial(tuple(sorted(models)), n, bad)
        return
    res = combine_fit_res(tabs)
    for s, t in zip(snaps, tabs):
        if t is not None:
            ctx.unchanged(s, t, "input-modified")
    if want == "none":
        ctx.check(res is None, "no-measurements-not-none")
        return
    good = [t for t in tabs if t is not None]
    if len(tabs) == 1:
        ctx.count("single")
    if n == 0:
        if not good:
            return
        ctx.check(res is not None and res.shape == (0,), "zero-rows-shape")
        ctx.count("zero_rows")
    ctx.require(res is not None and res.shape == (n,), "joined-shape",
                got=None if res is None else res.shape)
    cols = []
    for t in good:
        for nme in t.dtype.names:
            cols.append(nme)
            ctx.require(nme in res.dtype.names, "column-lost", col=nme)
            ctx.equal(res.dtype[nme] == t.dtype[nme], True, "column-type",
                      col=nme)
            ctx.equal(res[nme], t[nme], "column-values", col=nme)
    ctx.check(set(res.dtype.names) == set(cols), "extra-columns",
              got=res.dtype.names)
    if len(good) > 1 and n > 0:
        ctx.count("joined")
        ctx.nontrivial(tuple(sorted(models)), n, "join")
    ctx.sample(ctx.info)


def fam_struct(ctx, rng, i):
    """the starting row: every flag says not attempted, every value NaN"""
    from metadetect.fitting import (
        get_wavg_output_struct, MAX_NUM_SHEAR_BANDS)
    from metadetect import procflags as pf
    nband = int(rng.randint(1, 9))
    model = str(rng.choice(MODELS))
    k = int(rng.randint(0, min(nband, MAX_NUM_SHEAR_BANDS)+1))
    sb = [int(b) for b in rng.permutation(nband)[:k]]
    arg = sb if rng.uniform() < 0.8 else None
    snap = snapshot(sb)
    t = get_wavg_output_struct(nband, model, shear_bands=arg)
    ctx.unchanged(snap, sb, "input-modified")
    ctx.require(t.shape == (1,), "one-row")
    for nme in t.dtype.names:
        if nme == "shear_bands":
            want = "".join(str(b) for b in sorted(sb)) if arg is not None \
                else ""
            ctx.equal(t[nme][0], want, "shear-bands-label")
        elif "flags" in nme:
            ctx.check(np.all(t[nme] == pf.NO_ATTEMPT), "initial-flag",
                      col=nme)
        else:
            ctx.check(np.all(np.isnan(t[nme])), "initial-value", col=nme)
    want = ["flags", "psf_flags", "psf_g", "psf_T", "obj_flags", "s2n", "g",
            "g_cov", "T", "T_flags", "T_err", "T_ratio", "band_flux_flags",
            "band_flux", "band_flux_err"]
    for w in want:
        ctx.check("%s_%s" % (model, w) in t.dtype.names, "column-missing",
                  col=w)
    for w in ("band_flux", "band_flux_err", "band_flux_flags"):
        ctx.equal(t["%s_%s" % (model, w)].shape,
                  (1,) if nband == 1 else (1, nband), "flux-shape")
    if nband > MAX_NUM_SHEAR_BANDS:
        ctx.expect_raises(
            lambda: get_wavg_output_struct(
                nband, model, shear_bands=list(range(MAX_NUM_SHEAR_BANDS+1))),
            (AssertionError, ValueError, RuntimeError), "too-many-bands")
    ctx.count("structs")
    ctx.nontrivial("struct", model, nband, k)


FAMILIES = {"combine": (fam_combine, 3000, 40000),
            "struct": (fam_struct, 1000, 10000)}
