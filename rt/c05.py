import numpy as np
from .core import *
from pyotf import utils


def cases(rng, tier):
    for x in range(-6, 8):
        for w in range(0, 9):
            yield dict(xs=[x], ws=w)
    for i in range(150 if tier == "quick" else 2000):
        nd = int(rng.integers(1, 4))
        q = [1.0, 0.5, 0.25][int(rng.integers(3))]
        xs = [float(v) * q for v in rng.integers(-40, 60, nd)]
        if q == 1.0:
            xs = [int(v) for v in xs]
        ws = [float(v) * q for v in rng.integers(0, 50, nd)] if rng.random() < 0.6 else float(rng.integers(0, 60)) * q
        yield dict(xs=xs, ws=ws)
    for w in (-1, -0.25, [3, -1], [-2.0, 4.0]):
        yield dict(xs=[5, 5], ws=w, err="ValueError")
    yield dict(xs=["1j", "2"], ws=3, err="TypeError")
    yield dict(xs=[5, 5], ws=["3", "2j"], err="TypeError")
    yield dict(xs=[5, 5], ws="3+0j", err="TypeError")


def num(v):
    if isinstance(v, list):
        return [num(x) for x in v]
    return complex(v) if isinstance(v, str) else v


def check(c):
    xs, ws = num(c["xs"]), num(c["ws"])
    what = f"slice_maker({xs}, {ws})"
    if "err" in c:
        return raises(dict(ValueError=ValueError, TypeError=TypeError)[c["err"]], lambda: utils.slice_maker(xs, ws), what)
    for arg in (xs, tuple(xs), np.array(xs)):
        got = utils.slice_maker(arg, ws)
        need(len(got) == len(xs), f"{what}: {len(got)} slices")
        wl = ws if isinstance(ws, list) else [ws] * len(xs)
        for s, x, w in zip(got, xs, wl):
            x, w = round(x), round(w)
            a, b = x - w // 2, x - w // 2 + w
            a, b = max(a, 0), max(b, 0)
            need(s.step in (None, 1), f"{what}: step {s.step}")
            need(s.start is not None and s.stop is not None and s.start >= 0 and s.stop >= 0, f"{what}: {got}")
            if b > a:
                need((s.start, s.stop) == (a, b), f"{what} = {got}, expected {(a, b)}")
            else:
                need(s.stop <= s.start, f"{what} = {got}, expected an empty slice")
