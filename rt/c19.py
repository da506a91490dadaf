import numpy as np
from .core import *
from .mic import *


def cases(rng, tier):
    # every intermediate value is an exact multiple of 1.22 by a power of two: the radius is exactly the distance of some pixels
    for R, n, q in ((2.0, 9, 1), (5.0, 13, 1), (3.0, 3, 3), (5.0, 5, 3)):
        yield dict(kw=dict(model="hanser", na=1.22, ni=1.5, wl=512.0, size=n, zsize=2, zres=128.0, pixel_size=64.0 * q, oversample_factor=q),
                   pin=R / 4, exc=1.0, ops=[], exact=True)
    for i in range(100 if tier == "quick" else 800):
        kw = mparams(rng)
        au = 1.22 * kw["wl"] / kw["na"] / (kw["pixel_size"] / kw["oversample_factor"])
        r = [0.0, 1.0, 1.49, 1.51, 1.6, 2.0, 2.3, 2.9, 3.5, 5.2][int(rng.integers(10))]
        ops = []
        for _ in range(int(rng.integers(0, 4))):
            ops.append([["wl_exc", "pinhole", "read", "copyexc"][int(rng.integers(4))], float(rng.uniform(0.85, 1.3)), float(rng.uniform(0, 6))])
        yield dict(kw=kw, pin=float(f"{2 * r / au:.6g}") if r else [0, 0.0][int(rng.integers(2))], exc=round(float(rng.uniform(0.9, 1.2)), 3), ops=ops)
    yield dict(kind="reject")


def disk(radius):
    n = int(np.ceil(radius)) + 1
    y, x = np.mgrid[-n:n + 1, -n:n + 1]
    q = np.hypot(y, x)
    return (q < radius).astype(float) / (q < radius).sum(), bool((np.abs(q - radius) < 1e-9 * radius).any())


def blur(psf, k):
    """Linear convolution with the (point symmetric) kernel, same size."""
    h = k.shape[0] // 2
    out = np.zeros_like(psf)
    n = psf.shape[1]
    pad = np.zeros((psf.shape[0], n + 2 * h, n + 2 * h))
    pad[:, h:h + n, h:h + n] = psf
    for dy in range(-h, h + 1):
        for dx in range(-h, h + 1):
            w = k[h + dy, h + dx]
            if w:
                out += w * pad[:, h - dy:h - dy + n, h - dx:h - dx + n]
    return out


def expect(kw, pin, exc):
    em, ex = fine_model(kw).PSFi, fine_model(kw, wl=exc).PSFi
    rad = pin * 1.22 * kw["wl"] / kw["na"] / (kw["pixel_size"] / kw["oversample_factor"]) / 2
    tie = abs(rad - 1.5) < 1e-9
    if rad > 1.5:
        k, t = disk(rad)
        tie = tie or t
        em = blur(em, k)
    return em * ex, tie


def check(c):
    if c.get("kind") == "reject":
        kw = dict(model="hanser", na=0.8, ni=1.0, wl=1.0, size=4, pixel_size=0.3, oversample_factor=1)
        raises((TypeError, ValueError), lambda: microscope.ConfocalMicroscope(**kw, wl_exc=0.9, pinhole_size=-1.0), "negative pinhole")
        return
    kw = c["kw"]
    lim = kw["pixel_size"] / kw["oversample_factor"] * 2 * kw["na"]
    exc = float(f"{max(kw['wl'] * c['exc'], lim * 1.01):.6g}")
    if kw["model"].lower() == "sheppard":
        exc = max(exc, float(f"{kw.get('zres', kw['pixel_size']) * 2 * kw['ni'] * 1.01:.6g}"))
    m = microscope.ConfocalMicroscope(**kw, wl_exc=exc, pinhole_size=c["pin"])
    pin = c["pin"]
    hist = f"ConfocalMicroscope({kw}, wl_exc={exc}, pinhole_size={pin})"
    f = fine_model(kw)
    emis = params_of(f)

    def verify():
        need(m.wl_exc == exc and m.pinhole_size == pin, f"{hist}: wl_exc reads {m.wl_exc}, pinhole_size {m.pinhole_size}")
        want, tie = expect(kw, pin, exc)
        got = m.model_psf
        if not tie or c.get("exact"):
            close(got, want, hist + ".model_psf", 1e-7)
            check_psf(m, want, kw, hist)
        need(all(abs(getattr(m.model, k) - v) <= 1e-12 * abs(v) if isinstance(v, float) else getattr(m.model, k) == v for k, v in emis.items()),
             f"{hist}: emission model {m.model}")
        close(m.model.PSFi, f.PSFi, hist + ": emission PSF")
    if not c["ops"] or c["ops"][0][0] != "wl_exc":
        verify()
    for op, a, b in c["ops"]:
        if op == "wl_exc":
            exc = float(f"{max(kw['wl'] * a, lim * 1.01):.6g}")
            if kw["model"].lower() == "sheppard":
                exc = max(exc, float(f"{kw.get('zres', kw['pixel_size']) * 2 * kw['ni'] * 1.01:.6g}"))
            m.wl_exc = exc
            hist += f"; wl_exc={exc}"
        elif op == "pinhole":
            rad = b
            pin = float(f"{2 * rad / (1.22 * kw['wl'] / kw['na'] / (kw['pixel_size'] / kw['oversample_factor'])):.6g}")
            m.pinhole_size = pin
            hist += f"; pinhole_size={pin}"
        elif op == "read":
            m.wl_exc, m.pinhole_size, m.PSF, m.OTF
            hist += "; read"
        else:
            m.wl_exc = m.wl_exc
        if b < 4:
            verify()
    verify()
