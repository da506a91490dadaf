import copy
import numpy as np
from .core import *
from pyotf import phaseretrieval as pr
from pyotf.otf import HanserPSF


def cases(rng, tier):
    for i in range(60 if tier == "quick" else 500):
        p = optics(rng, size=int(rng.integers(8, 17)))
        p["zres"], p["zsize"] = p["wl"] * 0.5, int(rng.integers(1, 5))
        yield dict(p=p, n=[1, 2, 3, 4, 6, 10, 15, 21, 36][int(rng.integers(9))], s1=sl(rng), s2=sl(rng),
                   size=None if rng.random() < 0.25 else int(rng.integers(1, 24)),
                   z=["none", "zsize", "zrange"][int(rng.integers(3))], zero=bool(rng.random() < 0.3), seed=int(rng.integers(1 << 30)))


def sl(rng):
    k = int(rng.integers(5))
    return [[None, None, None], [4, None, None], [int(rng.integers(0, 6)), int(rng.integers(0, 12)), None], [None, None, 2], [None, int(rng.integers(1, 8)), None]][k]


def crop(a, size):
    n = a.shape[-1]
    out = np.zeros(a.shape[:-2] + (size, size), a.dtype)
    if size is None:
        return a
    off = (-(-size // 2) - -(-n // 2)) if size > n else (size // 2 - n // 2)
    i = np.arange(n)
    k = (i + off >= 0) & (i + off < size)
    out[..., (i + off)[k][:, None], (i + off)[k][None]] = a[..., i[k][:, None], i[k][None]]
    return out


def check(c):
    p = c["p"]
    rng = np.random.default_rng(c["seed"])
    n = p["size"]
    q = dict(p, vec_corr="none", condition="none")
    model = HanserPSF(**q)
    kr, phi = hanser_grid(p)
    sh = lambda a: np.fft.fftshift(a)
    inside = sh(kr < p["na"] / p["wl"])
    mag = rng.random((n, n)) * inside
    phase = rng.normal(size=(n, n)) * inside
    if c["zero"]:
        mag[n // 2, n // 2 - 1] = 0
    one, two, three = np.arange(3.0), np.arange(3.0) + 1, np.arange(3.0) + 2
    res = pr.PhaseRetrievalResult(mag, phase, one, two, three, model)
    need(res.mse is one and res.pupil_diff is two and res.mse_diff is three and res.mag is mag and res.phase is phase, "the result does not hold what it was given")
    fr = Frozen("PhaseRetrievalResult", mag, phase)
    state = lambda: [getattr(model, k) for k in ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")] + [np.array(model.zrange).tolist()]
    before = state()
    if rng.random() < 0.5:
        model.apply_pupil(np.fft.ifftshift(mag * np.exp(1j * phase)))
    held = np.array(model.PSFi)
    close(res.complex_pupil, mag * np.exp(1j * phase), "complex_pupil")
    # fit
    N = c["n"]
    r = sh(kr) * p["wl"] / p["na"]
    t = sh(phi)
    edge = np.abs(r - 1) < 1e-9
    zs = np.array([zern(r, t, *NOLL[j]) for j in range(1, N + 1)])
    pts = (r <= 1) & ~edge
    A = zs[:, pts].T
    zd = None
    sv = np.linalg.svd(A, compute_uv=False) if A.size else np.array([0.0])
    good = not edge.any() and len(sv) == N and sv[-1] > 1e-7 * sv[0]
    if pts.sum() > 0:
        zd = res.fit_to_zernikes(N)
        need(res.zd_result is zd, "zd_result")
        need(zd.mcoefs.shape == (N,) and zd.pcoefs.shape == (N,), f"{zd.mcoefs.shape} coefficients for {N} modes")
        for name, data, co in (("magnitude", mag, zd.mcoefs), ("phase", phase, zd.pcoefs)):
            if good:
                want = np.linalg.solve(A.T @ A, A.T @ data[pts])
                resid = lambda x: ((A @ x - data[pts]) ** 2).sum()
                need(np.allclose(co, want, rtol=1e-5, atol=1e-6 * max(1, np.abs(want).max())) or
                     resid(co) <= resid(want) * (1 + 1e-9) + 1e-20, f"{name} coefficients {co}, least squares {want}")
            elif not edge.any():
                close(A.T @ (A @ co), A.T @ data[pts], f"normal equations of the {name} fit", 1e-6, max(1, np.abs(A).max() ** 2 * len(A)))
        s1, s2 = slice(*c["s1"]), slice(*c["s2"])
        zc = np.where(edge, 0, 1)
        rm = np.tensordot(zd.mcoefs[s1], zs[s1], 1) * zc
        rp = np.tensordot(zd.pcoefs[s2], zs[s2], 1) * zc
        sc = max(1, np.abs(zd.mcoefs).max() * 10, np.abs(zd.pcoefs).max() * 10)
        close(zd.mag(s1) * zc, rm, f"mag({s1})", 1e-8, sc)
        close(zd.phase(s2) * zc, rp, f"phase({s2})", 1e-8, sc)
        close(zd.complex_pupil(s1, s2) * zc, rm * np.exp(1j * rp) * zc, f"complex_pupil({s1}, {s2})", 1e-7, sc)
        close(zd.complex_pupil() * zc, zd.mag(slice(None)) * np.exp(1j * zd.phase(slice(None))) * zc, "complex_pupil()", 1e-7, sc)
    # PSFs
    kw = {}
    if c["z"] == "zsize":
        kw["zsize"] = int(rng.integers(1, 6))
    elif c["z"] == "zrange":
        kw["zrange"] = (rng.normal(size=3) * p["wl"]).tolist()
    if c["size"] is not None:
        kw["size"] = c["size"]
    pq = {k: v for k, v in q.items()}
    if "zsize" in kw:
        pq["zsize"] = kw["zsize"]
    if "zrange" in kw:
        pq["zrange"] = kw["zrange"]
    todo = [("generate_psf", res.generate_psf, mag * np.exp(1j * phase))]
    if zd is not None:
        todo.append(("generate_zd_psf", res.generate_zd_psf, zd.complex_pupil(sphase=slice(4, None, None))))
        todo.append((f"generate_zd_psf({s2})", lambda **k: res.generate_zd_psf(s2, **k), zd.complex_pupil(sphase=s2)))
    for name, fn, pup in todo:
        got = fn(**kw)
        full = psfi_of(hanser_psfa(pq, np.fft.ifftshift(pup)))
        want = full if c["size"] is None else crop(full, c["size"])
        close(got, want, f"{name}({kw}) for size {n}", 1e-7, full.max())
        got2 = fn()
        close(got2, psfi_of(hanser_psfa(q, np.fft.ifftshift(pup))), f"{name}() after {name}({kw})", 1e-7)
    fr.check()
    need(state() == before, f"the model was changed: {state()}, before {before}")
    need(np.array_equal(model.PSFi, held), "the model's PSF was changed")
