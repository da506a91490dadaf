import numpy as np
import matplotlib as mpl
mpl.use("Agg")
import matplotlib.pyplot as plt
from .core import *
from pyotf import display, otf, microscope


def cases(rng, tier):
    for i in range(24 if tier == "quick" else 200):
        n = int(rng.integers(2, 9))
        yield dict(kind="psf", shape=[int(rng.integers(2, 9)), int(rng.integers(2, 9)), n], zres=round(float(rng.uniform(0.1, 3)), 3),
                   res=round(float(rng.uniform(0.1, 3)), 3), mip=[None, True, False][i % 3],
                   kw=[{}, dict(cmap="gray"), dict(interpolation="bicubic", gamma=0.3), dict(vmin=0.25, vmax=0.75), dict(vmin=0.125, gamma=0.7, alpha=0.5)][int(rng.integers(5))],
                   fig=bool(rng.random() < 0.3), seed=int(rng.integers(1 << 30)))
        n = int(rng.integers(2, 9))
        yield dict(kind="otf", shape=[int(rng.integers(2, 9)), n, n], zres=round(float(rng.uniform(0.1, 3)), 3), res=round(float(rng.uniform(0.1, 3)), 3),
                   na=round(float(rng.uniform(0.3, 1.2)), 3), ni=1.33, wl=round(float(rng.uniform(0.4, 2)), 3),
                   kw=[{}, dict(cmap="gray"), dict(interpolation="bicubic"), dict(vmin=0.25, vmax=0.75), dict(alpha=0.5)][int(rng.integers(5))],
                   fig=bool(rng.random() < 0.3), seed=int(rng.integers(1 << 30)))
    for i in range(8 if tier == "quick" else 40):
        yield dict(kind="model", which=i % 4, seed=int(rng.integers(1 << 30)))
    yield dict(kind="num")


TITLES = {"$XY$": "XY", "$YZ$": "YZ", "$XZ$": "XZ", "$k_{XY}$": "XY", "$k_{YZ}$": "YZ", "$k_{XZ}$": "XZ"}
# title -> (vertical axis, horizontal axis, projected axis) of the data
VIEW = {"XY": (1, 2, 0), "YZ": (1, 0, 2), "XZ": (0, 2, 1)}


def ends(n, d):
    return [-(n // 2) * d, (n - 1 - n // 2) * d]


def panels(grid):
    out = {}
    for ax in grid:
        t = ax.get_title()
        if t:
            need(t in TITLES, f"panel titled {t!r}")
            need(TITLES[t] not in out, f"two panels titled {t!r}")
            out[TITLES[t]] = ax
    need(set(out) == {"XY", "YZ", "XZ"}, f"panels {sorted(out)}")
    return out


def verify(grid, data, steps, mip, kw, what):
    pan = panels(grid)
    for t, (v, h, p) in VIEW.items():
        ax = pan[t]
        need(len(ax.images) == 1, f"{what} {t}: {len(ax.images)} images")
        im = ax.images[0]
        img = data.max(p) if mip else np.take(data, data.shape[p] // 2, p)
        left = [a for a in range(3) if a != p]
        if left != [v, h]:
            img = img.T
        got = np.asarray(im.get_array())
        need(got.shape == img.shape and np.allclose(got, img), f"{what} {t}: shows other data")
        e = [*ends(data.shape[h], steps[h]), *ends(data.shape[v], steps[v])]
        need(np.allclose(im.get_extent(), e, rtol=1e-9, atol=1e-9), f"{what} {t}: extent {im.get_extent()}, expected {e}")
        if "cmap" in kw:
            need(im.get_cmap().name == kw["cmap"], f"{what} {t}: cmap {im.get_cmap().name}")
        need(im.get_interpolation() == kw.get("interpolation", "nearest"), f"{what} {t}: interpolation {im.get_interpolation()}")
        if "vmin" in kw:
            need(im.norm.vmin == kw["vmin"], f"{what} {t}: vmin {im.norm.vmin}")
        if "vmax" in kw:
            need(im.norm.vmax == kw["vmax"], f"{what} {t}: vmax {im.norm.vmax}")
        if "gamma" in kw:
            need(im.norm.gamma == kw["gamma"], f"{what} {t}: gamma {im.norm.gamma}")
        if "alpha" in kw:
            need(im.get_alpha() == kw["alpha"], f"{what} {t}: alpha {im.get_alpha()}")
    return pan


def check(c):
    try:
        return _check(c)
    finally:
        plt.close("all")


def _check(c):
    if c["kind"] == "num":
        for n in range(1, 30):
            for d in (1.0, 0.25, 3.0, 2):
                g = display.max_min(n, d)
                need(np.allclose(g, ends(n, d)), f"max_min({n}, {d}) = {g}")
                g = display.fft_max_min(n, d)
                need(np.allclose(g, ends(n, 1 / (n * d))), f"fft_max_min({n}, {d}) = {g}")
        return
    rng = np.random.default_rng(c["seed"])
    fig = plt.figure(figsize=(3, 3)) if c.get("fig") else None
    kw = dict(c.get("kw", {}))
    if c["kind"] == "psf":
        x = rng.random(c["shape"])
        fr = Frozen("psf_plot", x)
        a = dict(kw)
        if c["mip"] is not None:
            a["mip"] = c["mip"]
        if fig is not None:
            a["fig"] = fig
        f, grid = display.psf_plot(x, zres=c["zres"], res=c["res"], **a)
        fr.check()
        what = f"psf_plot(shape {x.shape}, {kw}, mip={c['mip']})"
        need(fig is None or f is fig, f"{what}: another figure")
        verify(grid, x, (c["zres"], c["res"], c["res"]), c["mip"] in (None, True), kw, what)
        if "gamma" not in kw:
            need(all(im.norm.gamma == 0.5 for ax in grid for im in ax.images), f"{what}: default gamma")
    elif c["kind"] == "otf":
        x = rng.random(c["shape"]) + 0.01
        fr = Frozen("otf_plot", x)
        a = dict(kw)
        if fig is not None:
            a["fig"] = fig
        f, grid = display.otf_plot(x, na=c["na"], ni=c["ni"], wl=c["wl"], zres=c["zres"], res=c["res"], **a)
        fr.check()
        what = f"otf_plot(shape {x.shape}, {kw})"
        need(fig is None or f is fig, f"{what}: another figure")
        steps = [1 / (n * d) for n, d in zip(x.shape, (c["zres"], c["res"], c["res"]))]
        pan = verify(grid, x, steps, False, kw, what)
        circ = [p for p in pan["XY"].patches if isinstance(p, mpl.patches.Circle)]
        need(len(circ) == 1, f"{what}: {len(circ)} circles")
        need(abs(circ[0].radius - 2 * c["na"] / c["wl"]) < 1e-9 * circ[0].radius and tuple(circ[0].center) == (0, 0), f"{what}: circle of radius {circ[0].radius}")
    else:
        p = optics(rng, size=int(rng.integers(12, 17)) if c["which"] % 2 else int(rng.integers(6, 11)))
        p["zres"], p["zsize"] = p["wl"] / 2 / p["ni"] * 0.8, int(rng.integers(10, 14))
        kind = c["which"]
        if kind < 2:
            m = (otf.HanserPSF if kind == 0 else otf.SheppardPSF)(**p)
            steps, I, O = (m.zres, m.res, m.res), lambda: m.PSFi, lambda: m.OTFi
            mod = m
        else:
            px = min(p["res"], p["wl"] / 2 / p["ni"] * 0.9)
            m = microscope.WidefieldMicroscope(model="hanser" if kind == 2 else "sheppard", na=p["na"], ni=p["ni"], wl=p["wl"], size=p["size"],
                                               pixel_size=px, oversample_factor=1 if kind == 3 else 3,
                                               **(dict(zres=p["zres"], zsize=p["zsize"]) if c["seed"] % 3 else {}))
            steps, I, O = (p["zres"] if c["seed"] % 3 else px, px, px), lambda: m.PSF, lambda: m.OTF
            mod = m.model
        psf, o = np.array(I()), np.array(O())
        if not np.isfinite(psf).all() or not psf.max() > 0:
            return
        what = f"{type(m).__name__}({p})"
        # extent of the smart crop: 16 (axial) and 32 (lateral) times the resolution, centred on the maximum
        lat = mod.wl / 2 / mod.na / steps[1] * 32
        axi = mod.wl / (mod.ni - np.sqrt(mod.ni ** 2 - mod.na ** 2)) / steps[0] * 16
        loc = np.unravel_index(psf.argmax(), psf.shape)
        crop = []
        for x0, w in zip(loc, (axi, lat, lat)):
            w = round(w)
            crop.append(slice(max(0, x0 - w // 2), x0 - w // 2 + w))
        f, grid = m.plot_psf(cmap="gray")
        verify(grid, psf[tuple(crop)], steps, True, dict(cmap="gray"), what + ".plot_psf")
        f, grid = m.plot_psf(mip=False, vmin=0.0, vmax=psf.max())
        verify(grid, psf[tuple(crop)], steps, False, dict(vmin=0.0, vmax=psf.max()), what + ".plot_psf(mip=False)")
        a = np.abs(o)
        a = np.fmax(a / a.max(), np.finfo(float).eps)
        f, grid = m.plot_otf(cmap="gray")
        verify(grid, a, [1 / (n * d) for n, d in zip(a.shape, steps)], False, dict(cmap="gray", vmin=1e-4), what + ".plot_otf")
        f, grid = m.plot_otf(vmin=1e-3)
        verify(grid, a, [1 / (n * d) for n, d in zip(a.shape, steps)], False, dict(vmin=1e-3), what + ".plot_otf(vmin)")
        need(np.array_equal(I(), psf) and np.array_equal(O(), o), what + ": plotting modified the data")
