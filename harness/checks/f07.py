import numpy as np

PROPERTY = "F07"
RULE = ("all single bits 0..30, all pairs of registered bits and random "
        "combinations, as Python and numpy integers, 0-d and size-1 arrays; "
        "distinct by (bits set)")
REQUIRED = ["single_bits", "combos", "registry"]
ASSUMPTIONS = ["ngmix's own bits are all below 2**19"]
OWN = ["SHEAR_RANGE_ERROR", "EDGE_HIT", "PSF_FAILURE", "OBJ_FAILURE",
       "NOMOMENTS_FAILURE", "BAD_BBOX", "ZERO_WEIGHTS", "NO_DATA",
       "MISSING_BAND", "INCONSISTENT_BANDS", "CENTROID_FAILURE",
       "DEBLEND_FAILURE"]


def fam_registry(ctx, rng, i):
    import ngmix.flags
    from metadetect import procflags as pf
    vals = {n: getattr(pf, n) for n in OWN}
    for n, v in vals.items():
        ctx.check(isinstance(v, int) and v > 0 and v & (v-1) == 0,
                  "not-a-single-bit", name=n, value=v)
        ctx.check(2**19 <= v < 2**31, "bit-out-of-range", name=n, value=v)
        ctx.check(v in pf.NAME_MAP and isinstance(pf.NAME_MAP[v], str),
                  "bit-without-description", name=n)
        ctx.check(pf.NAME_MAP.get(pf.NAME_MAP.get(v)) == v,
                  "description-does-not-map-back", name=n)
    ctx.check(len(set(vals.values())) == len(vals), "bits-collide", vals=vals)
    texts = [pf.NAME_MAP[v] for v in vals.values()]
    ctx.check(len(set(texts)) == len(texts), "descriptions-collide")
    ng = {k: v for k, v in ngmix.flags.NAME_MAP.items()
          if isinstance(k, (int, np.integer))}
    for k, v in ng.items():
        ctx.check(pf.NAME_MAP.get(k) == v, "ngmix-bit-lost", bit=k)
        ctx.check(k not in vals.values(), "clashes-with-ngmix", bit=k)
    for n in OWN:
        ctx.check(getattr(pf, n) not in ngmix.flags.NAME_MAP,
                  "ngmix-registry-modified", name=n)
    ctx.check(pf.NO_ATTEMPT == ngmix.flags.NO_ATTEMPT, "no-attempt-bit")
    ctx.count("registry")
    ctx.nontrivial("registry")


def fam_str(ctx, rng, i):
    from metadetect import procflags as pf
    import ngmix.flags
    if i < 31:
        bits = [i]
    else:
        k = int(rng.randint(0, 8))
        bits = sorted(int(b) for b in rng.permutation(31)[:k])
    val = sum(2**b for b in bits)
    form = [int, np.int32, np.int64,
            lambda v: np.array([v], dtype='i4')[0]][rng.randint(4)]
    s = pf.get_procflags_str(form(val))
    ctx.require(isinstance(s, str), "not-a-string")
    parts = s.split("|") if s else []
    ctx.equal(len(parts), len(bits), "one-part-per-bit")
    want = []
    for b in bits:
        v = 2**b
        if v in pf.NAME_MAP:
            want.append(pf.NAME_MAP[v])
        elif v in ngmix.flags.NAME_MAP:
            want.append(ngmix.flags.NAME_MAP[v])
        else:
            want.append("bit 2**%d" % b)
    ctx.check(sorted(parts) == sorted(want), "wrong-descriptions",
              got=parts, want=want)
    # the descriptions identify the value
    back = 0
    for p in parts:
        if p in pf.NAME_MAP:
            back |= pf.NAME_MAP[p]
        elif p.startswith("bit 2**"):
            back |= 2**int(p[7:])
    ctx.check(back == val, "value-not-recoverable", back=back, val=val)
    ctx.count("single_bits" if len(bits) == 1 else "combos")
    ctx.nontrivial(tuple(bits))


def fam_namer(ctx, rng, i):
    from metadetect.util import Namer
    front = [None, '', 'wmom', 'a'][rng.randint(4)]
    back = [None, '', 'noshear', '1p', '2m'][rng.randint(5)]
    n = Namer(front=front, back=back)
    name = str(rng.choice(["T", "g_cov", "x"]))
    want = name
    if front:
        want = front + "_" + want
    if back and back != 'noshear':
        want = want + "_" + back
    ctx.equal(n(name), want, "column-name", front=front, back=back)
    ctx.count("combos")
    ctx.nontrivial("namer", front, back)


FAMILIES = {"registry": (fam_registry, 1, 1), "str": (fam_str, 4000, 40000),
            "namer": (fam_namer, 200, 400)}
