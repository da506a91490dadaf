import numpy as np
from .core import *
from pyotf.otf import HanserPSF, apply_aberration


def cases(rng, tier):
    for rep in range(6 if tier == "quick" else 60):
        for vc in VEC:
            for co in COND:
                p = optics(rng, size=int(rng.integers(2, 17)), vec_corr=vc, condition=co)
                p["zrange"] = [float(z) for z in rng.normal(size=int(rng.integers(1, 6))) * p["wl"] * 2]
                if rng.random() < 0.3:
                    del p["zrange"]
                    p["zsize"], p["zres"] = int(rng.integers(1, 6)), p["wl"] * 0.7
                yield dict(p=p, kind=["default", "pupil", "phase", "aber"][int(rng.integers(4))], seed=int(rng.integers(1 << 30)))


def check(c):
    p = c["p"]
    rng = np.random.default_rng(c["seed"])
    n = p["size"]
    m = HanserPSF(**p)
    kr, phi = hanser_grid(p)
    kmag = p["ni"] / p["wl"]
    theta = np.arcsin(np.where(kr < kmag, kr / kmag, 0))
    apo = {"none": np.ones_like(kr), "sine": 1 / np.sqrt(np.cos(theta)), "herschel": 1 / np.cos(theta)}[p["condition"]]
    pupil = (kr < p["na"] / p["wl"]).astype(complex)
    base = m.PSFi.sum((1, 2))
    what = f"HanserPSF({p})"
    if c["kind"] in ("pupil", "phase"):
        if c["kind"] == "pupil":
            pupil = (rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))) * (kr < kmag)
        m.apply_pupil(pupil)
        base = m.PSFi.sum((1, 2))
        m2 = HanserPSF(**p)
        m2.apply_pupil(pupil * np.exp(1j * rng.normal(size=(n, n)) * 3))
        close(m2.PSFi.sum((1, 2)), base, what + ": plane sums after a pure phase", 1e-9)
    elif c["kind"] == "aber":
        m2 = apply_aberration(m, None, rng.normal(size=int(rng.integers(2, 20))))
        close(m2.PSFi.sum((1, 2)), base, what + ": plane sums after a phase aberration", 1e-9)
    need(np.ptp(base) <= 1e-9 * base.max(), f"{what}: plane sums {base}")
    if p["vec_corr"] in ("none", "total"):
        e = (np.abs(pupil * apo) ** 2).mean() * (2 if p["vec_corr"] == "total" else 1)
        close(base, np.full(len(base), e), what + ": energy", 1e-9)
