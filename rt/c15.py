import numpy as np
from .core import *
from pyotf import otf

NAMES = ["piston", "tip", "tilt", "defocus", "oblique astigmatism", "vertical astigmatism", "vertical coma",
         "horizontal coma", "vertical trefoil", "oblique trefoil", "primary spherical", "vertical secondary astigmatism",
         "oblique secondary astigmatism", "vertical quadrafoil", "oblique quadrafoil"]


def cases(rng, tier):
    for i in range(100 if tier == "quick" else 800):
        p = optics(rng, size=int(rng.integers(4, 17)), vec_corr=VEC[int(rng.integers(5))], condition=COND[int(rng.integers(3))])
        p["zsize"], p["zres"] = int(rng.integers(1, 4)), p["wl"] * 0.5
        kind = ["both", "mag", "phase", "none", "name", "names"][i % 6]
        yield dict(p=p, kind=kind, n=int(rng.integers(2, 30)) if rng.random() < 0.9 else 120, seed=int(rng.integers(1 << 30)),
                   name=NAMES[i // 6 % 15], read=bool(rng.random() < 0.5), use=[int(k) for k in rng.permutation(15)[:int(rng.integers(1, 5))]],
                   zero=bool(rng.random() < 0.2), pupil=bool(rng.random() < 0.2))
    for n in ("foo", "", "Piston", "coma", 3):
        yield dict(kind="unknown", name=n)


def params_of(m):
    return {k: getattr(m, k) for k in ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")}


def check(c):
    if c["kind"] == "unknown":
        m = otf.HanserPSF(1.0, 0.8, 1.0, 0.3, 6)
        raises(KeyError, lambda: otf.apply_named_aberration(m, c["name"], 1.0), f"aberration {c['name']!r}")
        raises(KeyError, lambda: otf.named_aberration_to_pcoefs(c["name"], 1.0), f"aberration {c['name']!r}")
        raises(KeyError, lambda: otf.apply_named_aberrations(m, {"tip": 1.0, c["name"]: 2.0}), f"aberrations {c['name']!r}")
        return
    p = c["p"]
    rng = np.random.default_rng(c["seed"])
    m = otf.HanserPSF(**p)
    if c.get("pupil"):
        kr0, _ = hanser_grid(p)
        m.apply_pupil(np.exp(1j * rng.normal(size=kr0.shape)) * (kr0 < p["na"] / p["wl"]))
    if c["read"] or c.get("pupil"):
        m.PSFi, m.OTFi
    state = {k: np.array(v, copy=True) for k, v in vars(m).items() if k in ("PSFa", "PSFi", "OTFa", "OTFi")}
    pars, zr = params_of(m), np.array(m.zrange)
    n = c["n"]
    mc = rng.normal(size=n) * 0.2
    pc = rng.normal(size=n) * (0 if c["zero"] else 1)
    kind = c["kind"]
    fr = Frozen("apply_aberration", mc, pc)
    if kind == "both":
        new = otf.apply_aberration(m, mc, pc)
    elif kind == "mag":
        new, pc = otf.apply_aberration(m, mc, None), mc * 0
    elif kind == "phase":
        new, mc = otf.apply_aberration(m, None, pc), pc * 0
    elif kind == "none":
        new, mc, pc = otf.apply_aberration(m, None, None), np.zeros(1), np.zeros(1)
    else:
        mc, pc = np.zeros(15), np.zeros(15)
        if kind == "name":
            mag = [1.0, -2.5, 2, 0][int(rng.integers(4))]
            got = otf.named_aberration_to_pcoefs(c["name"], mag)
            new = otf.apply_named_aberration(m, c["name"], mag)
            pc[NAMES.index(c["name"])] = mag
            same(got, pc, f"named_aberration_to_pcoefs({c['name']!r}, {mag})")
        else:
            d = {NAMES[k]: float(rng.normal()) for k in c["use"]}
            keep = dict(d)
            new = otf.apply_named_aberrations(m, d)
            need(d == keep, "the dictionary of aberrations was modified")
            for k, v in d.items():
                pc[NAMES.index(k)] += v
    fr.check()
    what = f"{kind} aberration of HanserPSF({p})" + (f" {c['name']}" if kind == "name" else "")
    need(new is not m, f"{what}: the original model was returned")
    need(params_of(m) == pars and np.array_equal(m.zrange, zr), f"{what}: the original's parameters changed")
    need(params_of(new) == pars and np.array_equal(new.zrange, zr), f"{what}: the copy has other parameters")
    for k, v in state.items():
        need(np.array_equal(getattr(m, k), v), f"{what}: the original's {k} changed")
    if kind == "none" and c.get("pupil"):
        return
    kr, phi = hanser_grid(p)
    r = kr * p["wl"] / p["na"]
    mag = (kr < p["na"] / p["wl"]).astype(float)
    ph = np.zeros_like(kr)
    edge = np.abs(r - 1) < 1e-9
    for j in range(len(pc)):
        z = zern(r, phi, *NOLL[j + 1])
        mag = mag + mc[j] * z
        ph = ph + pc[j] * z
    if edge.any() and (mc != 0).any():
        return
    close(new.PSFa, hanser_psfa(p, mag * np.exp(1j * ph)), what + ": PSFa", 1e-7)
    close(new.PSFi, psfi_of(new.PSFa), what + ": PSFi")
    if not c.get("pupil"):
        close(m.PSFa, hanser_psfa(p), what + ": PSFa of the original")
    # the copy is independent of the original
    new.wl = new.wl * 1.1
    need(params_of(m) == pars, f"{what}: changing the copy changed the original")
