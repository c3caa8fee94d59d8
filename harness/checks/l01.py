import copy
import random as pyrandom  # noqa

PROPERTY = "L01"
RULE = ("random histories of configuration requests (partial, full, invalid, "
        "re-resolved) interleaved with in-place edits of earlier results; "
        "each result is compared with a model that merges the overrides into "
        "the documented defaults; non-trivial when the history holds an "
        "override, a refusal and an edit; distinct by the sequence of "
        "operation kinds")
REQUIRED = ["resolved", "refused", "edits", "reresolved", "inner_edits",
            "repeated_requests"]
ASSUMPTIONS = []

DEFAULTS = {
    'subtract_sky': False,
    'deblender': 'sdss',
    'detect': {'thresh': 5.0},
    'metacal': {'reconv_type': 'fitgauss'},
    'pgauss': {'fwhm': 2.0},
    'stamp_size': 49,
    'shear_bands': None,
}
SUB = ('detect', 'metacal', 'pgauss')


def model(config):
    out = copy.deepcopy(DEFAULTS)
    for k, v in (config or {}).items():
        if k not in DEFAULTS:
            raise ValueError(k)
        if k in SUB:
            out[k].update(copy.deepcopy(v))
        else:
            out[k] = copy.deepcopy(v)
    for k, allowed in (('pgauss', ['fwhm']), ('detect', ['thresh'])):
        for kk in out[k]:
            if kk not in allowed:
                raise ValueError(kk)
    return out


def gen(rng):
    """a request and whether it must be refused"""
    c = {}
    if rng.uniform() < 0.4:
        c['subtract_sky'] = bool(rng.randint(2))
    if rng.uniform() < 0.3:
        c['deblender'] = str(rng.choice(['sdss', 'scarlet']))
    if rng.uniform() < 0.4:
        # no value is a value as well
        c['detect'] = {'thresh': float(rng.uniform(1, 20))
                       if rng.uniform() < 0.85 else None}
    if rng.uniform() < 0.1:
        c['detect'] = {}
    if rng.uniform() < 0.4:
        c['pgauss'] = {'fwhm': float(rng.uniform(0.5, 4))}
    if rng.uniform() < 0.1:
        c['pgauss'] = {}
    if rng.uniform() < 0.5:
        m = {}
        if rng.uniform() < 0.5:
            m['types'] = [str(s) for s in rng.choice(
                ['noshear', '1p', '1m', '2p', '2m'], size=2)]
        if rng.uniform() < 0.5:
            m['psf'] = 'fitgauss'
        if rng.uniform() < 0.3:
            m['reconv_type'] = str(rng.choice(['gauss', 'fitgauss']))
        if rng.uniform() < 0.1:
            m['reconv_type'] = None
        if rng.uniform() < 0.2:
            m['anything'] = {'nested': [1, 2]}
        c['metacal'] = m
    if rng.uniform() < 0.4:
        c['stamp_size'] = int(rng.choice([33, 39, 49, 64])) \
            if rng.uniform() < 0.8 else None
    if rng.uniform() < 0.4:
        c['shear_bands'] = [str(s) for s in rng.choice(
            list('griz'), size=rng.randint(1, 4), replace=False)] \
            if rng.uniform() < 0.8 else None
    if rng.uniform() < 0.25:
        k = rng.randint(4)
        if k == 0:
            c[str(rng.choice(['blah', 'Detect', 'pgaus', 'stampsize', 'psf',
                              'weight', 'model', '']))] = 3
        elif k == 1:
            c.setdefault('pgauss', {})[str(rng.choice(
                ['blah', 'thresh', 'FWHM']))] = 2.0
        elif k == 2:
            c.setdefault('detect', {})[str(rng.choice(
                ['blah', 'fwhm', 'threshold']))] = 2.0
        else:
            c['wmom'] = {'fwhm': 1.2}
    keys = list(c)
    order = rng.permutation(len(keys))
    return {keys[j]: c[keys[j]] for j in order}


def edit_values(rng, v):
    """edit lists and dicts where they are, however deep"""
    n = 0
    if isinstance(v, dict):
        for kk in list(v):
            n += edit_values(rng, v[kk])
        if rng.uniform() < 0.5:
            v['inner'] = 1
    elif isinstance(v, list):
        for kk in v:
            n += edit_values(rng, kk)
        k = rng.randint(3)
        if k == 0:
            v.append('x')
        elif k == 1:
            v.reverse()
        else:
            del v[:]
        n += 1
    return n


def scramble(rng, res, ctx):
    """edit a previously returned configuration in place, deeply"""
    if rng.uniform() < 0.6:
        for v in list(res.values()):
            ctx.count("inner_edits", edit_values(rng, v))
    for k in SUB:
        if rng.uniform() < 0.7:
            res[k]['edited'] = float(rng.uniform())
        for kk in list(res[k]):
            if rng.uniform() < 0.3:
                res[k][kk] = 'changed'
            elif rng.uniform() < 0.2:
                del res[k][kk]
    for k in list(res):
        if rng.uniform() < 0.2:
            del res[k]
        elif rng.uniform() < 0.2:
            res[k] = 'changed'
    res['new'] = 1


def fam_history(ctx, rng, i):
    from metadetect.lsst.configs import get_config
    past = []
    ops = []
    requests = []
    for step in range(rng.randint(4, 14)):
        k = rng.randint(11)
        if k < 3 and past:
            j = rng.randint(len(past))
            if past[j] is not None:
                scramble(rng, past[j], ctx)
                past[j] = None
                ctx.count("edits")
                ops.append("e")
                continue
        if k == 10 and requests:
            # an earlier request, whatever was done to its result
            cfg, first = requests[rng.randint(len(requests))]
            ctx.check(cfg == first, "request-changed-by-editing-its-result",
                      before=first, after=cfg)
            ctx.count("repeated_requests")
        elif k == 3:
            cfg = None if rng.uniform() < 0.5 else {}
        elif k == 4 and any(p is not None for p in past):
            # resolving a resolved configuration changes nothing
            p = [p for p in past if p is not None][-1]
            saved = copy.deepcopy(p)
            again = get_config(p)
            ctx.check(again == saved, "re-resolving-changes-config",
                      got=again, want=saved)
            ctx.check(p == saved, "input-config-modified")
            ctx.count("reresolved")
            ops.append("a")
            continue
        else:
            cfg = gen(rng)
        saved = copy.deepcopy(cfg)
        try:
            want = model(cfg)
        except ValueError:
            want = None
        ctx.describe(step=step, config=cfg, ops="".join(ops))
        if want is None:
            ctx.expect_raises(lambda: get_config(cfg), (ValueError,),
                              "invalid-config-accepted", config=cfg)
            ctx.count("refused")
            ops.append("x")
        else:
            got = get_config(cfg)
            ctx.check(isinstance(got, dict) and dict(got) == want,
                      "resolved-config-differs", got=got, want=want)
            for s in SUB:
                for p in past:
                    if p is not None and s in p:
                        ctx.check(p[s] is not got[s],
                                  "sub-config-shared-between-results", key=s)
                if cfg and s in cfg:
                    ctx.check(cfg[s] is not got[s],
                              "sub-config-shared-with-input", key=s)
            past.append(got)
            requests.append((cfg, saved))
            ctx.count("resolved")
            ops.append("r")
        ctx.check(cfg == saved, "input-config-modified", before=saved,
                  after=cfg)
    for cfg, first in requests:
        ctx.check(cfg == first, "request-changed-by-editing-its-result",
                  before=first, after=cfg)
    if len(set(ops)) >= 2:
        ctx.nontrivial("".join(ops))
        ctx.sample(dict(ops="".join(ops), last=ctx.info.get("config")))


FAMILIES = {"history": (fam_history, 3000, 60000)}
