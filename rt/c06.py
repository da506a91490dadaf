import numpy as np
from .core import *
from pyotf import utils


def cases(rng, tier):
    dts = ["uint16", "int64", "uint8", "int32"]
    for i in range(80 if tier == "quick" else 800):
        s = [int(rng.integers(1, 5)), int(rng.integers(2, 9)), int(rng.integers(2, 9))]
        if rng.random() < 0.4:
            s[2] = s[1]
        xy = None if rng.random() < 0.25 else int(rng.integers(1, 12))
        if xy is not None and rng.random() < 0.2:
            xy = s[1]
        yield dict(shape=s, xysize=xy, mult=[None, 0, 1, 2, 1.1, 0.5][int(rng.integers(6))], dtype=dts[i % 4],
                   seed=int(rng.integers(1 << 30)))


def check(c):
    rng = np.random.default_rng(c["seed"])
    base = int(rng.integers(3, 30))
    x = np.full(c["shape"], base) if rng.random() < 0.8 else rng.integers(0, 60, c["shape"])
    k = max(1, x.size // 3)
    x = x.copy()
    x.ravel()[rng.permutation(x.size)[:k]] = rng.integers(0, 200, k)
    peak = np.unravel_index(int(rng.integers(x.size)), x.shape)
    x[peak] = 250
    x = x.astype(c["dtype"])
    nz, ny, nx = x.shape
    kw = {}
    if c["xysize"] is not None:
        kw["xysize"] = c["xysize"]
    if c["mult"] is not None:
        kw["multiplier"] = c["mult"]
    mult = 1.5 if c["mult"] is None else c["mult"]
    xy = max(ny, nx) if c["xysize"] is None else c["xysize"]
    what = f"prep_data_for_PR({x.dtype} {x.shape}, {kw})"
    fr = Frozen("prep_data_for_PR", x)
    got = utils.prep_data_for_PR(x, **kw)
    fr.check()
    vals, cnt = np.unique(x, return_counts=True)
    modes = vals[cnt == cnt.max()]
    need(got.shape == (nz, xy, xy), f"{what}: shape {got.shape}, expected {(nz, xy, xy)}")
    fr = Frozen("center_data", x)
    cen = utils.center_data(x)
    fr.check()
    sh = [n // 2 - p for n, p in zip(x.shape, peak)]
    same(cen, np.roll(x, sh, (0, 1, 2)), f"center_data of {x.shape} with peak {peak}")
    ok = []
    for mode in modes:
        bg = x.astype(float) - mult * float(mode)
        d = np.maximum(bg, 0)
        res = []
        if xy < max(ny, nx):
            if bg[peak] <= bg.min():
                return
            d = np.roll(d, sh, (0, 1, 2))
        for ax in (1, 2):
            o = d.shape[ax]
            i = np.arange(o)
            if xy >= o:
                off = -(-xy // 2) - -(-o // 2)
            else:
                off = xy // 2 - o // 2
            keep = (i + off >= 0) & (i + off < xy)
            new = np.zeros(tuple(xy if a == ax else n for a, n in enumerate(d.shape)))
            new = np.moveaxis(new, ax, 0)
            new[i[keep] + off] = np.moveaxis(d, ax, 0)[keep]
            d = np.moveaxis(new, 0, ax)
        ok.append(d)
    need(any(np.allclose(got, d, rtol=1e-6, atol=1e-6) for d in ok), f"{what}: wrong data for peak {peak}:\n{got}\nexpected\n{ok[0]}")
    need((got >= 0).all(), f"{what}: negative values")
    fr = Frozen("remove_bg", x)
    rb = utils.remove_bg(x) if c["mult"] is None else utils.remove_bg(x, c["mult"])
    fr.check()
    need(any(np.allclose(rb, x.astype(float) - mult * float(m), rtol=1e-6, atol=1e-6) for m in modes),
         f"remove_bg({x.dtype}, {mult}): {rb!r}, mode {modes}")
