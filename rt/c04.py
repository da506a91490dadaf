import numpy as np
import scipy.fftpack
from .core import *
from pyotf import utils


def cases(rng, tier):
    for o in range(1, 12):
        for n in range(1, 12):
            yield dict(shape=[o], new=[n], mode="constant", seed=o * 100 + n)
    modes = ["constant", None, "edge", "mean", "wrap"]
    for i in range(80 if tier == "quick" else 800):
        nd = int(rng.integers(1, 4))
        s = rng.integers(1, 9, nd).tolist()
        form = int(rng.integers(4))
        new = None if form == 0 else (int(rng.integers(1, 12)) if form == 1 else
                                      [None if rng.random() < 0.2 else int(rng.integers(1, 12)) for _ in s])
        yield dict(shape=s, new=new, mode=modes[int(rng.integers(len(modes)))], npint=bool(rng.random() < 0.4),
                   seed=int(rng.integers(1 << 30)))
    yield dict(shape=[17, 23], new=None, mode="constant", seed=3)
    yield dict(shape=[101], new=None, mode="constant", seed=4)


def check(c):
    rng = np.random.default_rng(c["seed"])
    x = rng.integers(1, 1000, c["shape"]).astype(float)
    new = c["new"]
    if isinstance(new, int):
        want = (new,) * x.ndim
        arg = np.int64(new) if c.get("npint") else new
    elif new is None:
        want, arg = tuple(scipy.fftpack.next_fast_len(n) for n in x.shape), None
    else:
        want = tuple(o if n is None else n for o, n in zip(x.shape, new))
        arg = tuple(new) if c.get("npint") else list(new)
    kw = {} if c["mode"] is None else dict(mode=c["mode"])
    fr = Frozen("fft_pad", x)
    y = utils.fft_pad(x, arg, **kw)
    fr.check()
    what = f"fft_pad of shape {x.shape} to {new}"
    need(y.shape == want, f"{what}: shape {y.shape}")
    # where sample i of the input goes
    src, dst = [], []
    for o, n in zip(x.shape, want):
        sh = -(-n // 2) - -(-o // 2)
        i = np.arange(o)
        keep = (i + sh >= 0) & (i + sh < n)
        src.append(i[keep])
        dst.append(i[keep] + sh)
    same(y[np.ix_(*dst)], x[np.ix_(*src)], what + ": data")
    if c["mode"] == "constant":
        z = y.copy()
        z[np.ix_(*dst)] = 0
        need((z == 0).all(), f"{what}: an added sample is not zero")
    if all(n >= o for o, n in zip(x.shape, want)):
        back = utils.fft_pad(y, x.shape, **kw)
        same(back, x, what + " and back")
