import numpy as np
from .core import *
from pyotf.utils import cart2pol, psqrt


def cases(rng, tier):
    shapes = [[], [1], [7], [3, 4], [2, 3, 2], [0]]
    for i in range(100 if tier == "quick" else 1000):
        yield dict(shape=shapes[i % 6], dtype=["float", "int", "float32"][int(rng.integers(3))], bc=bool(rng.random() < 0.3), seed=int(rng.integers(1 << 30)))


def check(c):
    rng = np.random.default_rng(c["seed"])
    y, x = rng.normal(size=c["shape"]) * 10, rng.normal(size=c["shape"]) * 10
    y, x = np.where(rng.random(c["shape"]) < 0.2, 0, y), np.where(rng.random(c["shape"]) < 0.2, 0, x)
    y, x = np.asarray(y).astype(c["dtype"]), np.asarray(x).astype(c["dtype"])
    if c["bc"] and len(c["shape"]) == 2:
        y, x = y[:, :1], x[:1]
    fr = Frozen("cart2pol", y, x)
    rho, th = cart2pol(y, x)
    fr.check()
    Y, X = np.broadcast_arrays(y, x)
    tol = 1e-5 if c["dtype"] == "float32" else 1e-12
    close(rho * np.cos(th), X.astype(float), f"rho cos(theta) for y={y}, x={x}", tol, 50)
    close(rho * np.sin(th), Y.astype(float), f"rho sin(theta) for y={y}, x={x}", tol, 50)
    need((rho >= 0).all() and (np.abs(th) <= np.pi + 1e-6).all(), "rho or theta out of range")
    fr = Frozen("psqrt", x)
    s = psqrt(x)
    fr.check()
    close(s, np.sqrt(np.maximum(x.astype(float), 0)), f"psqrt({x})", tol, 10)
