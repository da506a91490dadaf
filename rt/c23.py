import math
import numpy as np
from .core import *
from pyotf.display import z_squeeze


def cases(rng, tier):
    for i in range(300 if tier == "quick" else 3000):
        n = [float(f"{v:.4g}") for v in rng.uniform(1, 2, 3)]
        if rng.random() < 0.2:
            n = [int(v) for v in rng.integers(1, 4, 3)]
        na = float(f"{rng.uniform(0.05, 1.9):.4g}")
        if rng.random() < 0.2:
            na = n[int(rng.integers(3))]
        if rng.random() < 0.1:
            n[1] = n[0]
        yield dict(n=n, na=na)


def f(n, na):
    return n - math.sqrt(max(0, n * n - na * na))


def check(c):
    a, b, d = c["n"]
    na = c["na"]
    g = z_squeeze(a, b, na)
    w = f(a, na) / f(b, na)
    need(abs(g - w) <= 1e-9 * w, f"z_squeeze({a}, {b}, {na}) = {g}, expected {w}")
    need(g > 0, f"z_squeeze({a}, {b}, {na}) = {g}")
    need(z_squeeze(a, a, na) == 1, f"z_squeeze({a}, {a}, {na}) is not 1")
    need(abs(g * z_squeeze(b, a, na) - 1) < 1e-9, f"z_squeeze({a}, {b}, {na}) is not reciprocal")
    need(abs(g * z_squeeze(b, d, na) / z_squeeze(a, d, na) - 1) < 1e-9, f"z_squeeze chain {a} {b} {d} {na}")
