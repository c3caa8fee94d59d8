"""Run a batch of hostile inputs through the public entry points that end in
compiled pixel loops and store what came out.  Run once compiled with bounds
checking and once interpreted; the parent compares the two."""
import sys
import pickle
import warnings
import numpy as np

warnings.filterwarnings("ignore")


def gen(seed, n):
    import common
    from checks.m05 import gen_mask
    from checks.m01 import shape
    for i in range(n):
        rng = np.random.RandomState((seed*100003 + i) % (2**32))
        k = i % 4
        dims = shape(rng)
        if k == 0:
            xm, ym, rm, kind = common.gen_holes(rng, dims, nmax=4)
            yield ("hole", kind, dims, dict(
                xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=False,
                mask_bit_val=int(2**rng.randint(31))))
        elif k == 1:
            xm, ym, rm, kind = common.gen_holes(rng, dims, nmax=4)
            yield ("win", kind, dims, dict(
                xm=xm, ym=ym, rm=rm, dims=dims, symmetrize=False,
                ap_rad=float(rng.choice([0.05, 0.5, 1.0, 1.5, 4.0]))))
        elif k == 2:
            yield ("edge", "edge", dims, dict(
                ap_rad=float(rng.choice([0.05, 0.5, 1.0, 1.5, 2.3, 9.0]))))
        else:
            # keep the interpreted run affordable
            if dims[0]*dims[1] > 700:
                dims = (dims[0] % 23 + 1, dims[1] % 23 + 1)
            m, kind = gen_mask(rng, dims)
            yield ("interp", kind, dims, dict(
                image=rng.normal(size=dims), bad_msk=m,
                maxfrac=float(rng.choice([0.9, 1.0])),
                buff=int(rng.choice([0, 1, 2, 4, 7, 40]) if m.sum() < 40
                         else rng.choice([1, 2])),
                iso_buff=int(rng.choice([0, 1, 2, 5, 50])),
                fill_isolated_with_noise=bool(rng.uniform() < 0.5),
                weight=2.0, _seed=int(rng.randint(2**31))))


def run_one(op, dims, kw):
    from metadetect import masking
    from metadetect.interpolate import interpolate_image_at_mask
    import ngmix
    kw = dict(kw)
    if op == "hole":
        return np.array(masking.make_foreground_bmask(**kw))
    if op == "win":
        return np.array(masking.make_foreground_apodization_mask(**kw))
    if op == "edge":
        obs = ngmix.Observation(
            np.ones(dims), weight=np.ones(dims), noise=np.ones(dims),
            bmask=np.zeros(dims, dtype='i4'),
            jacobian=ngmix.DiagonalJacobian(row=0, col=0))
        ol = ngmix.ObsList()
        ol.append(obs)
        mb = ngmix.MultiBandObsList()
        mb.append(ol)
        masking.apply_apodization_corrections(
            mbobs=mb, mask_bit_val=1, **kw)
        return np.array(mb[0][0].image)
    seed = kw.pop("_seed")
    out = interpolate_image_at_mask(rng=np.random.RandomState(seed), **kw)
    return None if out is None else np.array(out)


def main():
    seed, n, path = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    out = []
    for op, kind, dims, kw in gen(seed, n):
        try:
            res, err = run_one(op, dims, kw), None
        except Exception as e:
            res, err = None, (type(e).__name__, str(e)[:200])
        out.append((op, kind, dims, res, err))
    import numba
    info = dict(
        boundscheck=numba.config.BOUNDSCHECK,
        disable_jit=numba.config.DISABLE_JIT,
        compiled=count_compiled(),
    )
    with open(path, "wb") as fp:
        pickle.dump((info, out), fp)


def count_compiled():
    """how many compiled signatures the package holds after the run"""
    n = 0
    for name, mod in list(sys.modules.items()):
        if name.startswith("metadetect"):
            for v in list(vars(mod).values()):
                n += len(getattr(v, "signatures", []) or [])
    return n


if __name__ == "__main__":
    main()
