import numpy as np
from .core import *
from .mic import *
from .c08 import prof


def cases(rng, tier):
    for i in range(100 if tier == "quick" else 800):
        kw = mparams(rng)
        kw["size"] = int(rng.integers(4, 17))
        if rng.random() < 0.7:
            kw["oversample_factor"] = 1
            kw["pixel_size"] = float(f"{min(kw['wl'] / 2 / kw['na'], kw['wl'] / 2 / kw['ni']) * rng.uniform(0.2, 0.97):.4g}")
        yield dict(kw=kw)


def check(c):
    kw = c["kw"]
    m = microscope.ApotomeMicroscope(**kw)
    f = fine_model(kw)
    what = f"ApotomeMicroscope({kw})"
    psf = f.PSFi
    q = f.size * f.res * 2 * kw["na"] / kw["wl"]
    if abs(q - np.floor(q) - 0.5) < 1e-6:
        return
    k = int(np.rint(q)) // 2
    o = cdft(psf, (1, 2))
    cen = [n // 2 for n in o.shape[1:]]
    wts = []
    for plane in o:
        re, _, bad, tie = prof(plane.real, cen, 1.0)
        im = prof(plane.imag, cen, 1.0)[0]
        if k >= len(re) or bad[k]:
            return
        wts.append(abs(re[k] + 1j * im[k]))
    want = psf * np.array(wts)[:, None, None]
    if not (want.max() > 1e-12 * psf.max() ** 2):
        return
    got = m.model_psf
    need(got.shape == psf.shape, f"{what}: shape {got.shape}")
    i = np.unravel_index(np.abs(want).argmax(), want.shape)
    s = got[i] / want[i]
    need(s > 0, f"{what}: factor {s}")
    close(got, want * s, what + ".model_psf", 1e-7)
    check_psf(m, want, kw, what)
    close(m.model.PSFi, psf, what + ": the model PSF changed")
