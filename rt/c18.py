import numpy as np
from .core import *
from .mic import *


def cases(rng, tier):
    for i in range(80 if tier == "quick" else 600):
        yield dict(kind="psf", kw=mparams(rng), otf_first=bool(i % 2))
    kw = dict(model="hanser", na=0.8, ni=1.0, wl=1.0, size=4, pixel_size=0.3, oversample_factor=1)
    for of in (2, 4, -1, -3, 0, -2, 100):
        yield dict(kind="bad", kw=dict(kw, oversample_factor=of))
    for m in ("foo", "", "hansers", "widefield"):
        yield dict(kind="bad", kw=dict(kw, model=m))


def check(c):
    kw = c["kw"]
    if c["kind"] == "bad":
        return raises(Exception, lambda: microscope.WidefieldMicroscope(**kw), f"WidefieldMicroscope({kw})")
    keep = dict(kw)
    m = microscope.WidefieldMicroscope(**kw)
    need(kw == keep, "the keyword arguments were modified")
    what = f"WidefieldMicroscope({kw})"
    f = fine_model(kw)
    need(type(m.model) is type(f), f"{what}: model {m.model}")
    a, b = params_of(m.model), params_of(f)
    need(all(a[k] == b[k] or (isinstance(a[k], float) and abs(a[k] - b[k]) <= 1e-12 * abs(b[k])) for k in b), f"{what}: model {a}, expected {b}")
    close(m.model_psf, f.PSFi, what + ".model_psf")
    if c["otf_first"]:
        m.OTF
    check_psf(m, f.PSFi, kw, what)
    need(m.PSF.shape == (kw.get("zsize", kw["size"]), kw["size"], kw["size"]), f"{what}: shape {m.PSF.shape}")
    close(m.model_psf, f.PSFi, what + ".model_psf after reading the PSF")
    need(params_of(m.model) == a, f"{what}: reading the PSF changed the model")
