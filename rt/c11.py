import numpy as np
from .core import *
from pyotf.otf import HanserPSF


def cases(rng, tier):
    i = 0
    for rep in range(6 if tier == "quick" else 60):
        for vc in VEC:
            for co in COND:
                p = optics(rng, size=int(rng.integers(1, 13)), vec_corr=vc, condition=co)
                r = rng.random()
                if r < 0.3:
                    p["zrange"] = [float(z) for z in rng.normal(size=int(rng.integers(1, 6))) * p["wl"]]
                elif r < 0.36:
                    p["zrange"] = float(rng.normal() * p["wl"])
                elif r < 0.4:
                    p["zrange"] = [int(z) for z in rng.integers(-3, 4, 3)]
                else:
                    if rng.random() < 0.8:
                        p["zsize"] = int(rng.integers(1, 7))
                    if rng.random() < 0.8:
                        p["zres"] = float(f"{p['wl'] * rng.uniform(0.1, 2):.4g}")
                yield dict(p=p, pupil=["none", "none", "complex", "real", "bool"][int(rng.integers(5))], seed=int(rng.integers(1 << 30)))


def check(c):
    p = c["p"]
    m = HanserPSF(**p)
    rng = np.random.default_rng(c["seed"])
    n = p["size"]
    pup = None
    if c["pupil"] != "none":
        kr, _ = hanser_grid(p)
        ins = kr < p["ni"] / p["wl"]
        pup = rng.normal(size=(n, n)) * ins
        if c["pupil"] == "complex":
            pup = pup + 1j * rng.normal(size=(n, n)) * ins
        if c["pupil"] == "bool":
            pup = (pup > 0)
        fr = Frozen("apply_pupil", pup)
        m.apply_pupil(pup)
        fr.check()
    what = f"HanserPSF({p}).PSFa" + ("" if pup is None else " of a pupil")
    got = m.PSFa
    close(m.zrange, hanser_zrange(p), "zrange")
    want = hanser_psfa(p, pup)
    close(got, want, what, 1e-8)
    # each plane depends on its own z only
    if pup is None and want.shape[1] > 1:
        k = int(rng.integers(want.shape[1]))
        q = {a: b for a, b in p.items() if a not in ("zsize", "zrange", "zres")}
        q["zrange"] = [float(hanser_zrange(p)[k])]
        close(HanserPSF(**q).PSFa[:, 0], got[:, k], f"plane {k} on its own")
