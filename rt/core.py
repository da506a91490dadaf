"""Run-time side of the contracts: concrete cases, run on the real pyotf.

Each property module defines `cases(rng, tier)`, which yields JSON-able dictionaries, and `check(case)`, which runs the
real code on that case and raises Fail when the property's postcondition, evaluated by an oracle written in plain numpy
from the property's text, does not hold.
"""
import numpy as np


class Fail(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Fail(msg)


def close(got, want, what, tol=1e-8, scale=None):
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    if not want.size:
        return
    need(np.isfinite(got).all() or not np.isfinite(want).all(), f"{what}: not finite")
    s = scale if scale is not None else max(np.abs(want).max(), 1e-300)
    d = np.abs(got - want)
    i = np.unravel_index(np.argmax(d), d.shape)
    need(d[i] <= tol * s, f"{what}: {got[i]!r} at {tuple(int(k) for k in i)}, expected {want[i]!r}")


def same(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    need(np.array_equal(got, want), f"{what}: {got!r}, expected {want!r}")


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Fail(f"{what}: raised {e!r}, expected {exc}")
    raise Fail(f"{what}: accepted, result {r!r}")


class Frozen:
    """The arguments a call must not modify."""

    def __init__(self, what, *arrays):
        self.what = what
        self.arrays = [(a, np.array(a, copy=True)) for a in arrays]

    def check(self):
        for i, (a, b) in enumerate(self.arrays):
            need(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True),
                 f"{self.what}: argument {i} was modified")


def dft_matrix(n):
    """Centred DFT: both domains have their origin at n//2."""
    j = np.arange(n) - n // 2
    return np.exp(-2j * np.pi * np.outer(j, j) / n)


def along(mat, a, axis):
    return np.moveaxis(np.tensordot(mat, np.moveaxis(a, axis, 0), axes=(1, 0)), 0, axis)


def cdft(a, axes=None):
    a = np.asarray(a, dtype=complex)
    for ax in (range(a.ndim) if axes is None else axes):
        a = along(dft_matrix(a.shape[ax]), a, ax)
    return a


def icdft(a, axes=None):
    a = np.asarray(a, dtype=complex)
    for ax in (range(a.ndim) if axes is None else axes):
        n = a.shape[ax]
        a = along(dft_matrix(n).conj() / n, a, ax)
    return a


def freqs(n, d):
    """Frequencies in FFT order."""
    k = np.arange(n)
    k = np.where(k < (n + 1) // 2, k, k - n)
    return k / (n * d)


def noll_table(jmax=120):
    """Noll (1976): j -> (n, m)."""
    out, j, n = {}, 1, 0
    while j <= jmax:
        ms = [abs(m) for m in range(-n, n + 1, 2)]
        for am in sorted(ms):
            if am == 0:
                m = 0
            else:
                m = am if j % 2 == 0 else -am
            out[j] = (n, m)
            j += 1
        n += 1
    return out


NOLL = noll_table()


def radial(r, n, m):
    from math import factorial as f
    m = abs(m)
    out = np.zeros_like(r)
    for k in range((n - m) // 2 + 1):
        c = (-1) ** k * f(n - k) // (f(k) * f((n + m) // 2 - k) * f((n - m) // 2 - k))
        out = out + c * r ** (n - 2 * k)
    return out


def zern(r, t, n, m, norm=True):
    z = radial(r, n, m) * (np.cos(m * t) if m >= 0 else np.sin(-m * t))
    if norm:
        z = z * (np.sqrt(n + 1) if m == 0 else np.sqrt(2 * (n + 1)))
    return np.where(r <= 1, z, 0.0)


def pol_hanser(vec_corr, theta, phi):
    s, c = np.sin(theta), np.cos(theta)
    sp, cp = np.sin(phi), np.cos(phi)
    z = [s * cp, s * sp]
    y = [(c - 1) * sp * cp, c * sp ** 2 + cp ** 2]
    x = [c * cp ** 2 + sp ** 2, (c - 1) * sp * cp]
    return {"none": [np.ones_like(s)], "x": x, "y": y, "z": z, "total": z + y + x}[vec_corr]


def hanser_grid(p):
    k = freqs(p["size"], p["res"])
    kx, ky = np.meshgrid(k, k)
    return np.hypot(kx, ky), np.arctan2(ky, kx)


def hanser_zrange(p):
    zr = p.get("zrange")
    if zr is not None:
        return np.atleast_1d(np.array(zr, dtype=float))
    zsize = p["size"] if p.get("zsize") is None else p["zsize"]
    zres = p["res"] if p.get("zres") is None else p["zres"]
    return (np.arange(zsize) - zsize // 2) * float(zres)


def hanser_psfa(p, pupil=None):
    """Amplitude PSF from the formula."""
    n, kmag, klim = p["size"], p["ni"] / p["wl"], p["na"] / p["wl"]
    kr, phi = hanser_grid(p)
    if pupil is None:
        pupil = (kr < klim).astype(complex)
    theta = np.arcsin(np.where(kr < kmag, kr / kmag, 0))
    kz = np.sqrt(np.maximum(kmag ** 2 - kr ** 2, 0))
    cond = p.get("condition", "sine")
    apo = {"none": np.ones_like(kr), "sine": 1 / np.sqrt(np.cos(theta)), "herschel": 1 / np.cos(theta)}[cond]
    z = hanser_zrange(p)
    f = freqs(n, 1.0)
    j = np.arange(n) - n // 2
    idft = np.exp(2j * np.pi * np.outer(j, f)) / n
    out = []
    for pol in pol_hanser(p.get("vec_corr", "none"), theta, phi):
        planes = []
        for zz in z:
            a = pupil * np.exp(2j * np.pi * zz * kz) * apo * pol
            planes.append(idft @ a @ idft.T)
        out.append(planes)
    return np.array(out)


def sheppard_otfa(p):
    """Amplitude OTF from the definition, and a mask of the voxels that are too close to call."""
    n = p["size"]
    nz = n if p.get("zsize") is None else p["zsize"]
    zres = p["res"] if p.get("zres") is None else p["zres"]
    kmag, ka = p["ni"] / p["wl"], p["na"] / p["wl"]
    kl = (np.arange(n) - n // 2) / (n * p["res"])
    kv = (np.arange(nz) - nz // 2) / (nz * zres)
    kz, ky, kx = np.meshgrid(kv, kl, kl, indexing="ij")
    dk, dkz = 1 / (n * p["res"]), 1 / (nz * zres)
    kr = np.sqrt(kx ** 2 + ky ** 2 + kz ** 2)
    with np.errstate(all="ignore"):
        vox = np.sqrt((kx * dk) ** 2 + (ky * dk) ** 2 + (kz * dkz) ** 2) / kr
    vox[kr == 0] = 0 if dk != dkz else dk
    kzmin = np.sqrt(kmag ** 2 - ka ** 2)
    up = np.abs(kz) if p.get("dual") else kz
    d1 = np.abs(kr - kmag) - vox
    d2 = up - (kzmin + vox)
    inside = (d1 < 0) & (d2 > 0)
    unsure = (np.abs(d1) < 1e-9 * kmag) | (np.abs(d2) < 1e-9 * kmag)
    with np.errstate(all="ignore"):
        m, nn, s = kx / kr, ky / kr, np.abs(kz) / kr
        sg = np.sign(kz)
        cond = p.get("condition", "sine")
        apo = {"none": np.ones_like(kr), "sine": 1 / np.sqrt(s), "herschel": 1 / s}[cond]
        z = [-m * sg, -nn * sg]
        y = [-nn * m / (1 + s), 1 - nn ** 2 / (1 + s)]
        x = [1 - m ** 2 / (1 + s), -m * nn / (1 + s)]
        pol = {"none": [np.ones_like(kr)], "x": x, "y": y, "z": z, "total": z + y + x}[p.get("vec_corr", "none")]
        out = np.array([np.where(inside, q * apo, 0) for q in pol])
    return out, unsure


def psfi_of(psfa):
    return (np.abs(psfa) ** 2).sum(0)


def optics(rng, **fix):
    """Valid optical parameters: na <= ni and a pixel size below the Abbe limit."""
    wl = float(rng.choice([520.0, 0.585, 1.0, 605.0, 488.0]))
    ni = float(rng.choice([1.0, 1.33, 1.515, 1.4]))
    na = round(float(rng.uniform(0.3, 0.97)) * ni, 3)
    lim = wl / 2 / na
    res = float(f"{lim * rng.uniform(0.3, 0.95):.4g}")
    p = dict(wl=wl, na=na, ni=ni, res=res)
    p.update(fix)
    return p


VEC = ["none", "x", "y", "z", "total"]
COND = ["none", "sine", "herschel"]
