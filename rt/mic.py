"""Oracles shared by the microscope properties; they start from the repository's own model PSF (see C11 to C13)."""
import numpy as np
from .core import *
from pyotf import microscope, otf


def mparams(rng, small=True, model=None):
    p = optics(rng)
    lim = p["wl"] / 2 / p["ni"]
    kw = dict(model=model or ["hanser", "sheppard", "Hanser", "SHEPPARD"][int(rng.integers(4))], na=p["na"], ni=p["ni"], wl=p["wl"],
              size=int(rng.integers(2, 8)), oversample_factor=[1, 1, 3, 3, 5][int(rng.integers(5))])
    of = kw["oversample_factor"]
    kw["pixel_size"] = float(f"{min(lim * 0.95, p['res'] * of):.4g}")
    if rng.random() < 0.6:
        kw["zres"] = float(f"{lim * rng.uniform(0.5, 0.95):.4g}")
    if rng.random() < 0.6:
        kw["zsize"] = int(rng.integers(2, 6))
    if rng.random() < 0.5:
        kw["vec_corr"] = VEC[int(rng.integers(5))]
    if rng.random() < 0.5:
        kw["condition"] = COND[int(rng.integers(3))]
    if kw["model"].lower() == "sheppard":
        # coarse grids leave the spherical shell without a voxel
        kw["size"] = int(rng.integers(8, 16)) if of == 1 else int(rng.integers(4, 8))
        kw["pixel_size"] = float(f"{min(kw['pixel_size'], p['res'] * of * 0.9):.4g}")
        if kw.get("zsize") is not None or of > 1:
            kw["zsize"] = int(rng.integers(8, 14))
    return kw


def fine_model(kw, **over):
    of = kw["oversample_factor"]
    p = dict(na=kw["na"], ni=kw["ni"], wl=kw["wl"], zres=kw.get("zres", kw["pixel_size"]), zsize=kw.get("zsize", kw["size"]))
    for k in ("vec_corr", "condition"):
        if k in kw:
            p[k] = kw[k]
    p["size"] = kw["size"] * of
    p["res"] = kw["pixel_size"] / of
    p.update(over)
    return getattr(otf, kw["model"].capitalize() + "PSF")(**p)


def binned(fine, kw):
    """Sum over of x of blocks; the block of camera pixel size//2 is centred on the fine axis sample (size*of)//2."""
    of, n = kw["oversample_factor"], kw["size"]
    out = np.zeros((fine.shape[0], n, n))
    N = n * of
    for i in range(n):
        for j in range(n):
            ci, cj = N // 2 + (i - n // 2) * of, N // 2 + (j - n // 2) * of
            ii = [(ci + d) % N for d in range(-(of // 2), of // 2 + 1)]
            jj = [(cj + d) % N for d in range(-(of // 2), of // 2 + 1)]
            out[:, i, j] = fine[:, ii][:, :, jj].sum((1, 2))
    return out / out.sum()


def params_of(m):
    return {k: getattr(m, k) for k in ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")}


def check_psf(mic, fine, kw, what, tol=1e-7):
    want = binned(fine, kw)
    if not np.isfinite(want).all():
        return
    got = mic.PSF
    s = max(np.abs(want).max(), np.abs(fine).sum() / max(1e-300, abs(fine.sum())) * 1e-3)
    close(got, want, what + ".PSF", tol, s)
    close(mic.OTF, cdft(want), what + ".OTF", tol, max(1, np.abs(want).sum()))
    close(got.sum(), 1.0, what + ".PSF sum", tol * max(1, np.abs(want).sum()))
