import copy
import numpy as np
from .core import *
from pyotf import phaseretrieval as pr
from pyotf.otf import HanserPSF, apply_aberration


def cases(rng, tier):
    for i in range(60 if tier == "quick" else 500):
        p = optics(rng)
        p["ni"] = max(p["ni"], p["na"] * 1.05)
        p["zres"] = float(f"{p['wl'] * rng.uniform(0.2, 1):.4g}")
        how = ["random", "model", "aber", "neg"][i % 4]
        yield dict(p=p, size=int(rng.integers(4, 13)), nz=int(rng.integers(1, 6)), how=how, iters=int(rng.integers(1, 9)),
                   tol=[["none", 0], ["pupil", 3e-2], ["mse_rel", 3e-2], ["mse_abs", 0.5], ["both", 1e-2]][int(rng.integers(5))],
                   phase_only=bool(rng.random() < 0.5), zrange=bool(rng.random() < 0.2), seed=int(rng.integers(1 << 30)))
    for i in range(4 if tier == "quick" else 30):
        yield dict(kind="wrap", seed=int(rng.integers(1 << 30)))
    yield dict(kind="bad")


def retrieve(data, p, iters, ptol, mtol, phase_only):
    """The iteration; weak when a change in the last digits of the data and of the first pupil changes what comes out."""
    want = iteration(data, p, iters, ptol, mtol, phase_only)
    if not want["weak"]:
        rng = np.random.default_rng(1)
        for _ in range(2):
            noise = lambda shape: 1 + 1e-12 * rng.standard_normal(shape)
            o = iteration(data * noise(data.shape), p, iters, ptol, mtol, phase_only, noise(data.shape[1:]) * np.exp(1e-12j * rng.standard_normal(data.shape[1:])))
            if len(o["mse"]) != len(want["mse"]) or np.abs(o["pupil"] - want["pupil"]).max() > 1e-7 * np.abs(want["pupil"]).max():
                want["weak"] = True
                break
    return want


def iteration(data, p, iters, ptol, mtol, phase_only, noise=1.0):
    """The iteration of Hanser et al., written out; numpy FFTs are used only as the DFT."""
    nz, n = data.shape[0], data.shape[1]
    kr, phi = hanser_grid(dict(p, size=n))
    kz = np.sqrt(np.maximum((p["ni"] / p["wl"]) ** 2 - kr ** 2, 0))
    disk = (kr < p["na"] / p["wl"]).astype(float)
    z = np.atleast_1d(np.array(p["zrange"], float)) if p.get("zrange") is not None else (np.arange(nz) - nz // 2) * p["zres"]
    defoc = np.exp(2j * np.pi * z[:, None, None] * kz)
    mag = np.sqrt(np.maximum(data, 0))
    f = freqs(n, 1.0)
    j = np.arange(n) - n // 2
    idft = np.exp(2j * np.pi * np.outer(j, f)) / n
    dft = np.exp(-2j * np.pi * np.outer(f, j))
    pupil = disk * (noise + 0j)
    mse, md, pd, pupils, crit = [], [], [], [pupil], []
    weak = False
    for i in range(iters):
        psfa = np.array([idft @ (pupil * d) @ idft.T for d in defoc])
        m = ((data - np.abs(psfa) ** 2) ** 2).mean()
        mse.append(m)
        if i:
            md.append(abs(mse[-2] - m) / mse[-2])
            pd.append((np.abs(pupils[-2] - pupil) ** 2).mean() / (np.abs(pupils[-2]) ** 2).mean())
            crit += [md[-1] / mtol if mtol else 9, pd[-1] / ptol if ptol else 9]
            stop = md[-1] < mtol or pd[-1] < ptol or m < mtol
        else:
            md.append(np.nan)
            pd.append(np.nan)
            stop = m < mtol
        crit += [m / mtol if mtol else 9]
        if stop:
            break
        if (np.abs(psfa) < 1e-9 * np.abs(psfa).max()).any() and (mag[np.abs(psfa) < 1e-9 * np.abs(psfa).max()] > 0).any():
            weak = True
        est = mag * np.exp(1j * np.angle(psfa))
        pupil = np.mean([dft @ e @ dft.T / d for e, d in zip(est, defoc)], 0) * disk
        if phase_only:
            if (np.abs(pupil[disk > 0]) < 1e-9 * max(1e-300, np.abs(pupil).max())).any():
                weak = True
            pupil = np.exp(1j * np.angle(pupil)) * disk
        pupils.append(pupil)
    weak = weak or any(abs(c - 1) < 1e-3 for c in crit)
    return dict(mse=mse, mse_diff=md, pupil_diff=pd, pupil=pupil, weak=weak, disk=disk)


def check(c):
    if c.get("kind") == "bad":
        p = dict(wl=1.0, na=0.8, ni=1.0, res=0.3, zres=0.5)
        d = np.ones((3, 6, 6))
        raises(Exception, lambda: pr.retrieve_phase(np.ones((3, 6, 5)), dict(p)), "data that is not square")
        raises(Exception, lambda: pr.retrieve_phase(d, dict(p), 0), "max_iters=0")
        raises(Exception, lambda: pr.retrieve_phase(np.ones((6, 6)), dict(p)), "2D data")
        return
    if c.get("kind") == "wrap":
        return wrap(c)
    rng = np.random.default_rng(c["seed"])
    n, nz = c["size"], c["nz"]
    p = dict(c["p"])
    if c["zrange"]:
        p["zrange"] = np.sort(rng.normal(size=nz)) * p["wl"]
    if c["how"] == "random":
        data = rng.random((nz, n, n))
    else:
        m = HanserPSF(**dict({k: v for k, v in p.items() if k != "zrange"}, size=n, zsize=nz, vec_corr="none", condition="none"))
        if c["how"] == "aber":
            m = apply_aberration(m, rng.normal(size=8) * 0.05, rng.normal(size=8) * 0.3)
        data = m.PSFi * 1.0
        data = data / data.max() + 0.02 * rng.random(data.shape)
        if c["how"] == "neg":
            data = data - 0.1
    kind, t = c["tol"]
    ptol = t if kind in ("pupil", "both") else 0.0
    mtol = t if kind in ("mse_rel", "mse_abs", "both") else 0.0
    if kind == "mse_abs":
        # an absolute tolerance that stops after some iterations
        o = retrieve(data, p, c["iters"], 0.0, 0.0, c["phase_only"])
        k = int(rng.integers(len(o["mse"])))
        mtol = o["mse"][k] * 1.01
        if len(o["mse"]) > 1 and min(o["mse_diff"][1:]) < mtol:
            data = data * 1.0
    fr = Frozen("retrieve_phase", data)
    params = dict(p, vec_corr="total", condition="sine") if rng.random() < 0.3 else dict(p)
    got = pr.retrieve_phase(data, params, c["iters"], ptol, mtol, c["phase_only"])
    fr.check()
    want = retrieve(data, p, c["iters"], ptol, mtol, c["phase_only"])
    if want["weak"]:
        return
    what = f"retrieve_phase(size {data.shape}, {p}, {c['iters']}, {ptol}, {mtol}, {c['phase_only']})"
    for k in ("mse", "mse_diff", "pupil_diff"):
        g, w = np.asarray(getattr(got, k)), np.array(want[k])
        need(g.shape == w.shape, f"{what}: {len(g)} entries in {k}, expected {len(w)}")
        need(np.isnan(g[0]) if k != "mse" else True, f"{what}: {k}[0] = {g[0]}")
        ok = ~np.isnan(w)
        need(np.allclose(g[ok], w[ok], rtol=1e-5, atol=1e-9 * max(1e-300, np.nanmax(want["mse"]) if k == "mse" else 1)), f"{what}: {k} = {g}, expected {w}")
    sh = lambda a: np.roll(a, [s // 2 for s in a.shape], (0, 1))
    disk, pupil = sh(want["disk"]), sh(want["pupil"])
    need(not np.iscomplexobj(got.mag) and not np.iscomplexobj(got.phase), f"{what}: complex magnitude or phase")
    close(got.mag, np.abs(pupil), what + ": magnitude", 1e-5)
    need((got.mag[disk == 0] == 0).all() and (got.phase[disk == 0] == 0).all(), f"{what}: not 0 outside the pupil")
    s = max(1e-300, np.abs(pupil).max())
    close(np.abs(pupil) * np.exp(1j * got.phase), pupil, what + ": phase", 1e-5, s)
    close(got.complex_pupil, pupil, what + ": complex pupil", 1e-5, s)
    m = got.model
    need((m.size, m.zsize, m.vec_corr, m.condition) == (n, nz, "none", "none"), f"{what}: model {m}")
    close(got.r, sh(hanser_grid(dict(p, size=n))[0]), "r")
    close(got.theta, sh(hanser_grid(dict(p, size=n))[1]), "theta")
    need(got.na == p["na"] and got.wl == p["wl"], "na or wl of the result")


def wrap(c):
    """A phase that covers several times 2 pi is returned unwrapped."""
    from skimage.restoration import unwrap_phase
    rng = np.random.default_rng(c["seed"])
    p = dict(wl=0.6, na=0.9, ni=1.33, res=0.2, zres=0.4)
    n = 24
    m = HanserPSF(**dict(p, size=n, zsize=5, vec_corr="none", condition="none"))
    co = np.zeros(8)
    co[3] = 2.2
    co[5] = rng.uniform(0.3, 1.0)
    m = apply_aberration(m, None, co)
    got = pr.retrieve_phase(m.PSFi, dict(p), 8, 0, 0, True)
    mask = got.mag > 0
    pup = np.fft.fftshift(np.exp(1j * got.phase)) * np.fft.fftshift(mask)
    ref = unwrap_phase(np.angle(got.complex_pupil)) * mask

    def jumps(a):
        out = 0
        for ax in (0, 1):
            d = np.abs(np.diff(a, axis=ax))
            b = np.logical_and(np.take(mask, range(1, n), ax), np.take(mask, range(0, n - 1), ax))
            out += int((d[b] > np.pi).sum())
        return out
    w = np.angle(got.complex_pupil) * mask
    if jumps(ref) < jumps(w):
        need(jumps(got.phase) < jumps(w), f"the phase is not unwrapped: {jumps(got.phase)} jumps, wrapped {jumps(w)}")
