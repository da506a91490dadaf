import numpy as np
from .core import *
from pyotf.labview import labview
from pyotf.phaseretrieval import retrieve_phase
from pyotf.utils import prep_data_for_PR


def cases(rng, tier):
    for i in range(20 if tier == "quick" else 200):
        p = optics(rng)
        yield dict(p=dict(p, zres=p["wl"] * round(float(rng.uniform(0.3, 1)), 3)), size=int(rng.integers(5, 11)), nz=int(rng.integers(2, 5)),
                   kw=[{}, dict(max_iters=int(rng.integers(1, 7))), dict(max_iters=9, pupil_tol=1e-2), dict(max_iters=9, mse_tol=2e-2),
                       dict(max_iters=3, phase_only=True), dict(max_iters=12, pupil_tol=3e-2, mse_tol=1e-9, phase_only=True),
                       dict(max_iters=12, pupil_tol=1e-9, mse_tol=3e-2)][i % 7], lst=bool(i % 2), pos=bool(i % 3 == 0), rect=int(rng.integers(0, 3)),
                   seed=int(rng.integers(1 << 30)))


def check(c):
    rng = np.random.default_rng(c["seed"])
    n = c["size"]
    x = rng.integers(0, 8, (c["nz"], n, n + c["rect"]))
    x[c["nz"] // 2, n // 2 - 1:n // 2 + 2, n // 2 - 1:n // 2 + 2] += rng.integers(50, 200, (3, 3))
    p, kw = c["p"], c["kw"]
    if not kw and n > 7:
        kw = dict(max_iters=5)
    arg = x.tolist() if c["lst"] else x
    fr = Frozen("labview", x)
    if c["pos"]:
        full = dict(dict(max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, phase_only=False), **kw)
        got = labview(arg, p["wl"], p["na"], p["ni"], p["res"], p["zres"], full["max_iters"], full["pupil_tol"], full["mse_tol"], full["phase_only"])
    else:
        got = labview(arg, **p, **kw)
    fr.check()
    want = retrieve_phase(prep_data_for_PR(np.asarray(x)), dict(p), **dict(dict(max_iters=200, pupil_tol=1e-8, mse_tol=1e-8, phase_only=False), **kw)).phase
    need(isinstance(got, list) and isinstance(got[0], list) and isinstance(got[0][0], float), "not nested lists of numbers")
    m = max(n, n + c["rect"])
    need(np.shape(got) == (m, m), f"shape {np.shape(got)}")
    need(np.array_equal(np.array(got), want), f"labview(.., {p}, {kw}) differs from retrieve_phase(prep_data_for_PR(data))")
