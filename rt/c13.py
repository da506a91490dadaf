import numpy as np
from .core import *
from pyotf import otf


def cases(rng, tier):
    for rep in range(4 if tier == "quick" else 40):
        for cls in ("HanserPSF", "SheppardPSF"):
            for vc in VEC:
                for co in COND:
                    p = optics(rng, size=int(rng.integers(3, 11)), condition=co, vec_corr=vc)
                    p["zres"] = float(f"{p['wl'] / 2 / p['ni'] * rng.uniform(0.5, 0.98):.4g}")
                    p["zsize"] = int(rng.integers(3, 9))
                    if cls[0] == "H" and rng.random() < 0.3:
                        p["zrange"] = [float(z) for z in rng.normal(size=int(rng.integers(1, 5))) * p["wl"]]
                    elif cls[0] == "S" and rng.random() < 0.3:
                        p["dual"] = True
                    yield dict(cls=cls, p=p, order=[int(k) for k in rng.permutation(4)], pupil=bool(cls[0] == "H" and rng.random() < 0.2),
                               seed=int(rng.integers(1 << 30)))


def check(c):
    cls, p = getattr(otf, c["cls"]), c["p"]
    m = cls(**p)
    what = f"{c['cls']}({p})"
    pup = None
    if c.get("pupil"):
        rng = np.random.default_rng(c["seed"])
        n = p["size"]
        pup = rng.normal(size=(n, n)) * np.exp(1j * rng.normal(size=(n, n)))
        m.apply_pupil(pup)
    for k in c["order"]:
        getattr(m, ["PSFa", "PSFi", "OTFa", "OTFi"][k])
    a, i, oa, oi = m.PSFa, m.PSFi, m.OTFa, m.OTFi
    ncomp = dict(none=1, x=2, y=2, z=2, total=6)[p["vec_corr"]]
    nz = len(p["zrange"]) if "zrange" in p else p["zsize"]
    need(a.shape == (ncomp, nz, p["size"], p["size"]), f"{what}.PSFa: {a.shape}")
    need(not np.iscomplexobj(i), f"{what}.PSFi is complex")
    close(i, psfi_of(a), what + ".PSFi", scale=max(np.abs(a).max() ** 2, 1e-300))
    need((i >= 0).all(), f"{what}.PSFi is negative")
    tot = max(i.sum(), 1e-300)
    close(oi, cdft(i), what + ".OTFi", 1e-9, tot)
    close(oi[tuple(n // 2 for n in oi.shape)], i.sum(), what + ".OTFi centre", 1e-9, tot)
    if c["cls"] == "HanserPSF":
        close(oa, cdft(a, (1, 2, 3)), what + ".OTFa", 1e-9, max(1e-300, np.abs(a).sum()))
    else:
        close(cdft(a, (1, 2, 3)), oa, what + ".OTFa vs PSFa", 1e-8, max(1e-300, np.abs(oa).max()))
    if p["vec_corr"] == "total":
        s = 0
        for vc in "xyz":
            m2 = cls(**dict(p, vec_corr=vc))
            if pup is not None:
                m2.apply_pupil(pup)
            s = s + m2.PSFi
        close(i, s, what + ": total vs x + y + z", scale=max(i.max(), 1e-300))
