import numpy as np
from .core import *
from pyotf import utils


def cases(rng, tier):
    for i in range(80 if tier == "quick" else 800):
        s = rng.integers(1, 10, 2).tolist()
        cen = None
        if rng.random() < 0.5:
            q = 1 if rng.random() < 0.5 else 4
            cen = [float(rng.integers(0, s[0] * q)) / q, float(rng.integers(0, s[1] * q)) / q]
            if q == 1:
                cen = [int(v) for v in cen]
        yield dict(shape=s, center=cen, binsize=[None, 1.0, 0.5, 2.0, 1.7, 3, 0.3][int(rng.integers(7))],
                   complex=bool(rng.random() < 0.4), dtype=["float", "int", "float", "uint16", "uint8", "int16", "float32"][int(rng.integers(7))],
                   seed=int(rng.integers(1 << 30)))


def prof(x, cen, b):
    y = np.arange(x.shape[0])[:, None] - cen[0]
    z = np.arange(x.shape[1])[None] - cen[1]
    q = np.sqrt(y ** 2 + z ** 2) / b
    k = np.rint(q).astype(int)
    tie = np.abs(np.abs(q - np.floor(q)) - 0.5) < 1e-9
    mean, std = np.full(k.max() + 1, np.nan), np.full(k.max() + 1, np.nan)
    bad = np.zeros(k.max() + 1, bool)
    for i in range(k.max() + 1):
        v = x[k == i]
        if v.size:
            mean[i], std[i] = v.mean(), v.std()
    for i in k[tie]:
        bad[max(0, i - 1):i + 2] = True
    return mean, std, bad, tie


def check(c):
    rng = np.random.default_rng(c["seed"])
    x = rng.normal(size=c["shape"]) * 10 + 3
    if c["dtype"] == "int":
        x = np.rint(x).astype(int)
    elif c["dtype"] != "float":
        x = np.rint(np.abs(x) * 4 + 20).astype(c["dtype"])
    if c["complex"] and c["dtype"] in ("float", "int"):
        x = x + 1j * rng.normal(size=c["shape"])
    kw = {}
    if c["center"] is not None:
        kw["center"] = c["center"]
    if c["binsize"] is not None:
        kw["binsize"] = c["binsize"]
    what = f"radial_profile({x.shape}, {kw})"
    fr = Frozen("radial_profile", x)
    with np.errstate(all="ignore"):
        gm, gs = utils.radial_profile(x, **kw)
    fr.check()
    cen = [n // 2 for n in x.shape] if c["center"] is None else c["center"]
    b = 1.0 if c["binsize"] is None else c["binsize"]
    m, s, bad, tie = prof(x.real.astype(float), cen, b)
    if np.iscomplexobj(x):
        m2, s2, _, _ = prof(x.imag, cen, b)
        m, s = m + 1j * m2, np.sqrt(s ** 2 + s2 ** 2)
    if not tie.any():
        need(gm.shape == m.shape and gs.shape == s.shape, f"{what}: {gm.shape} rings, expected {m.shape}")
    n = min(len(gm), len(m))
    ok = ~np.isnan(m[:n]) & ~bad[:n]
    need(np.isnan(gm[:n][np.isnan(m[:n]) & ~bad[:n]]).all(), f"{what}: value for an empty ring")
    close(gm[:n][ok], m[:n][ok], what + " mean")
    var = np.abs(np.asarray(gs)[:n][ok]) ** 2
    # the deviation is a difference of squares: nan where rounding makes it negative
    var = np.where(np.isnan(var), 0, var)
    close(var, s[:n][ok] ** 2, what + " variance", 1e-8, 200.0)
