import numpy as np
from .core import *
from pyotf import utils


def cases(rng, tier):
    for i in range(120 if tier == "quick" else 1000):
        nd = int(rng.integers(1, 5))
        b = rng.integers(1, 4, nd).tolist()
        new = rng.integers(1, 4, nd).tolist()
        mode = ["shape", "bin", "scalar"][i % 3]
        s = [x * y for x, y in zip(b, new)]
        if mode != "shape":
            s = [x + int(rng.integers(0, y)) for x, y in zip(s, b)]
        if mode == "scalar":
            k = int(rng.integers(1, 4))
            s = [int(v) for v in rng.integers(k, 3 * k + 1, nd)]
            b = k
        yield dict(shape=s, new=new if mode == "shape" else None, bin=None if mode == "shape" else b,
                   op=[None, "sum", "mean", "SUM", "Mean"][int(rng.integers(5))],
                   dtype=["float", "int", "complex", "uint8"][int(rng.integers(4))], seed=int(rng.integers(1 << 30)))
    yield dict(shape=[4, 4], new=[2, 2], bin=None, op="median", err=1)
    yield dict(shape=[4, 4], new=[2, 2], bin=None, op="max", err=1)
    yield dict(shape=[4, 4], new=[2, 2], bin=None, op="std", err=1)
    yield dict(shape=[4, 4], new=[2], bin=None, op="sum", err=1)
    yield dict(shape=[4], new=[2, 2], bin=None, op="sum", err=1)
    yield dict(shape=[4, 4, 4], new=[4, 4], bin=None, op="mean", err=1)
    yield dict(shape=[4, 4], new=None, bin=None, op="sum", err=1)
    yield dict(shape=[5, 4], new=[2, 2], bin=None, op="sum", err=1)
    yield dict(shape=[4, 7], new=[2, 3], bin=None, op="mean", err=1)
    yield dict(shape=[2, 2], new=[4, 1], bin=None, op="sum", err=1)
    yield dict(shape=[6, 6], new=[4, 3], bin=None, op="sum", err=1)


def check(c):
    rng = np.random.default_rng(c.get("seed", 0))
    x = rng.integers(0, 255, c["shape"])
    dt = c.get("dtype", "float")
    if dt == "complex":
        x = x + 1j * rng.integers(0, 255, c["shape"])
    else:
        x = x.astype(dt)
    kw = {}
    if c["new"] is not None:
        kw["new_shape"] = tuple(c["new"])
    if c["bin"] is not None:
        kw["bin_size"] = c["bin"] if isinstance(c["bin"], int) else tuple(c["bin"])
    if c["op"] is not None:
        kw["operation"] = c["op"]
    what = f"bin_ndarray(shape {x.shape}, {kw})"
    if "err" in c:
        return raises((ValueError, TypeError), lambda: utils.bin_ndarray(x, **kw), what)
    fr = Frozen("bin_ndarray", x)
    got = utils.bin_ndarray(x, **kw)
    fr.check()
    if c["new"] is not None:
        new = c["new"]
        b = [o // n for o, n in zip(x.shape, new)]
    else:
        b = [c["bin"]] * x.ndim if isinstance(c["bin"], int) else c["bin"]
        new = [o // k for o, k in zip(x.shape, b)]
    xx = x.astype(complex if dt == "complex" else float)
    want = np.zeros(new, xx.dtype)
    for idx in np.ndindex(*new):
        blk = xx[tuple(slice(i * k, i * k + k) for i, k in zip(idx, b))]
        want[idx] = blk.mean() if (c["op"] or "sum").lower() == "mean" else blk.sum()
    close(got, want, what)
