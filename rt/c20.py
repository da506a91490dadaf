import numpy as np
from .core import *
from .mic import *

CLS = ["SIM2DMicroscope", "SIM3DMicroscope", "LatticeSIMMicroscope", "BaseSIMMicroscope"]


def cases(rng, tier):
    for i in range(120 if tier == "quick" else 900):
        kw = mparams(rng)
        cls = CLS[i % 4]
        s = dict(wiener=[None, 0, 0.1, 0.5, 0.0][int(rng.integers(5))], dc_suppress=bool(rng.integers(2)),
                 na_exc=None if rng.random() < 0.3 else 0.0 if rng.random() < 0.1 else float(f"{kw['na'] * rng.uniform(0.2, 1):.4g}"),
                 wl_exc=None if rng.random() < 0.3 else float(f"{kw['wl'] * rng.uniform(0.8, 1.2):.4g}"))
        if cls != "LatticeSIMMicroscope":
            s["orientations"] = [0.0, 2 * np.pi / 3, 4 * np.pi / 3, 0.7][:int(rng.integers(0 if cls == "SIM3DMicroscope" else 1, 5))]
            if rng.random() < 0.3:
                s["orientations"] = [float(v) for v in rng.normal(size=int(rng.integers(1, 4)))]
        if cls == "BaseSIMMicroscope":
            s["coherent"], s["dc"] = bool(rng.integers(2)), bool(rng.integers(2))
            if s["coherent"] and not s["orientations"]:
                s["orientations"] = [0.3]
        ops = []
        for _ in range(int(rng.integers(0, 4))):
            a = ["na_exc", "wl_exc", "wiener", "dc_suppress", "orientations", "coherent", "dc"][int(rng.integers(7))]
            v = dict(na_exc=float(f"{kw['na'] * rng.uniform(0.2, 1):.4g}") if rng.random() < 0.9 else 0.0, wl_exc=float(f"{kw['wl'] * rng.uniform(0.8, 1.2):.4g}"),
                     wiener=[None, 0, 0.2, 0.05][int(rng.integers(4))], dc_suppress=bool(rng.integers(2)), coherent=bool(rng.integers(2)),
                     dc=bool(rng.integers(2)), orientations=[float(v) for v in rng.normal(size=int(rng.integers(1, 4)))])[a]
            ops.append([a, v])
        yield dict(cls=cls, kw=kw, s=s, ops=ops, read=bool(rng.integers(2)))
    for cls in CLS[:3]:
        for w in (-1, -0.1, -1e-9):
            yield dict(kind="bad", cls=cls, w=w)


def expect(kw, s, f):
    N, nz = f.size, f.zsize
    x = (np.arange(N) - N // 2) * (kw["pixel_size"] / kw["oversample_factor"])
    z = (np.arange(nz) - nz // 2) * kw.get("zres", kw["pixel_size"])
    zz, yy, xx = np.meshgrid(z, x, x, indexing="ij")
    k = 2 * np.pi * kw["ni"] / s["wl_exc"]
    ca = np.sqrt(1 - (s["na_exc"] / kw["ni"]) ** 2)
    sa = s["na_exc"] / kw["ni"]
    psf = f.PSFi
    weak = False
    if s["wiener"] is not None:
        o = np.abs(cdft(psf)) ** 2
        if s["wiener"] == 0:
            weak = bool(((o > 1e-18) & (o < 1e-14)).any())
            w = (o > 1e-16).astype(float)
        else:
            w = o / (o + o.max() * s["wiener"] ** 2)
        psf = icdft(w).real

    def beams(t):
        r = xx * np.cos(t) + yy * np.sin(t)
        return np.exp(1j * k * (r * sa + zz * ca)) + np.exp(1j * k * (-r * sa + zz * ca))
    axial = np.exp(1j * k * zz) if s["dc"] else 0
    if s["coherent"]:
        pat = np.abs(axial + sum(beams(t) for t in s["orientations"])) ** 2
        return psf * pat, weak
    pat = sum((np.abs(axial + beams(t)) ** 2 for t in s["orientations"]), np.zeros_like(psf))
    if s["dc_suppress"]:
        pat = pat - (2 * len(s["orientations"]) - 1)
    return psf * pat, weak


def check(c):
    cls = getattr(microscope, c["cls"])
    if c.get("kind") == "bad":
        kw = dict(model="hanser", na=0.8, ni=1.0, wl=1.0, size=4, pixel_size=0.3, oversample_factor=1)
        a = dict(na_exc=None, wl_exc=None, dc_suppress=True)
        if c["cls"] != "LatticeSIMMicroscope":
            a["orientations"] = (0, 1)
        raises(ValueError, lambda: cls(**kw, **a, wiener=c["w"]), f"{c['cls']} wiener={c['w']}")
        m = cls(**kw, **a, wiener=0.1)
        raises(ValueError, lambda: setattr(m, "wiener", c["w"]), f"{c['cls']}.wiener={c['w']}")
        need(m.wiener == 0.1, f"wiener reads {m.wiener} after a rejected assignment")
        return
    kw, s = c["kw"], dict(c["s"])
    m = cls(**kw, **s)
    fixed = dict(SIM2DMicroscope=dict(coherent=False, dc=False), SIM3DMicroscope=dict(coherent=False, dc=True),
                 LatticeSIMMicroscope=dict(coherent=True, dc=True, orientations=[0, np.pi / 2])).get(c["cls"], {})
    s.update(fixed)
    if s["na_exc"] is None:
        s["na_exc"] = kw["na"]
    if s["wl_exc"] is None:
        s["wl_exc"] = kw["wl"]
    hist = f"{c['cls']}({kw}, {c['s']})"
    f = fine_model(kw)

    def verify():
        want, weak = expect(kw, s, f)
        if weak or not np.isfinite(want).all():
            return
        got = m.model_psf
        close(got, want, hist + ".model_psf", 1e-7, max(1e-300, np.abs(want).max(), np.abs(f.PSFi).max() if s["wiener"] is None else 1e-3))
        if abs(want.sum()) > 1e-3 * np.abs(want).sum():
            check_psf(m, want, kw, hist, 1e-6)
        close(m.model.PSFi, f.PSFi, hist + ": the model PSF changed")
    if c["read"] or not c["ops"]:
        verify()
    for i, (a, v) in enumerate(c["ops"]):
        setattr(m, a, v)
        s[a] = v
        hist += f"; {a}={v}"
        if s["coherent"] and not s["orientations"]:
            return
        if i % 2 == 0:
            verify()
    verify()
