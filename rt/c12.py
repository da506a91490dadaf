import numpy as np
from .core import *
from pyotf.otf import SheppardPSF


def cases(rng, tier):
    for rep in range(6 if tier == "quick" else 60):
        for vc in VEC:
            for co in COND:
                p = optics(rng, size=int(rng.integers(4, 17)), vec_corr=vc, condition=co)
                lim = p["wl"] / 2 / p["ni"]
                r = rng.random()
                if r < 0.15:
                    p["res"] = float(f"{min(p['res'], lim * 0.9):.4g}")
                else:
                    p["zres"] = float(f"{lim * rng.uniform(0.5, 0.98):.4g}")
                    if r > 0.3:
                        p["zsize"] = int(rng.integers(4, 17))
                if rng.random() < 0.4:
                    p["dual"] = bool(rng.random() < 0.8)
                yield dict(p=p)


def check(c):
    p = c["p"]
    m = SheppardPSF(**p)
    got = m.OTFa
    want, unsure = sheppard_otfa(p)
    what = f"SheppardPSF({p})"
    need(got.shape == want.shape, f"{what}.OTFa has shape {got.shape}, expected {want.shape}")
    need(np.isfinite(got).all(), f"{what}.OTFa is not finite")
    close(np.where(unsure, 0, got), np.where(unsure, 0, want), what + ".OTFa", 1e-8)
    close(m.PSFa, icdft(got, (1, 2, 3)), what + ".PSFa")
