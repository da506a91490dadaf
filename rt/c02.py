import numpy as np
from .core import *
from pyotf import zernike as zk


def cases(rng, tier):
    yield dict(kind="all", seed=1)
    yield dict(kind="all", seed=2, norm=False)
    yield dict(kind="grid", size=9)
    yield dict(kind="grid", size=16)
    for i in range(30 if tier == "quick" else 300):
        k = int(rng.integers(0, 6))
        js = rng.integers(1, 121, k if k else 1).tolist()
        yield dict(kind="seq", js=js, form=["noll", "scalar", "pair", "nm"][int(rng.integers(4))],
                   shape=[[], [7], [4, 5], [1], [1, 6], [6, 1]][int(rng.integers(6))],
                   norm=[None, True, False][int(rng.integers(3))], seed=int(rng.integers(1 << 30)))
    for n, m in ((1, 3), (2, -4), (0, 1), (0, -2), (3, -5)):
        yield dict(kind="badpair", n=[n], m=[m])
        yield dict(kind="badpair", n=[2, n], m=[0, m])
    yield dict(kind="negr", r=[-1e-9])
    yield dict(kind="negr", r=[0.5, -0.25, 1.0])
    yield dict(kind="negr", r=[[0.5, 0.1], [0.2, -2.0]])
    yield dict(kind="negr", r=-0.5)


def pts(seed, shape):
    rng = np.random.default_rng(seed)
    r = np.where(rng.random(shape) < 0.25, rng.choice([0.0, 1.0, 1.0 + 1e-12, 2.0, 0.5], shape), rng.random(shape) * 1.3)
    t = rng.uniform(-np.pi, np.pi, shape)
    return np.asarray(r), np.asarray(t)


def kw(c):
    return {} if c.get("norm") is None else dict(norm=c["norm"])


def check(c):
    kind = c["kind"]
    norm = c.get("norm") in (None, True)
    if kind == "all":
        r, t = pts(c["seed"], (40,))
        for j, (n, m) in NOLL.items():
            fr = Frozen("zernike", r, t)
            got = zk.zernike(r, t, j, **kw(c))
            fr.check()
            close(got, zern(r, t, n, m, norm), f"Noll mode {j}", 1e-8)
            need((got[r > 1] == 0).all(), f"Noll mode {j} is not 0 outside the disk")
            got = zk.zernike(r, t, n, m, **kw(c))
            close(got, zern(r, t, n, m, norm), f"mode {(n, m)}", 1e-8)
        got = zk.zernike(r, t, np.arange(1, 121), **kw(c))
        close(got, np.array([zern(r, t, n, m, norm) for n, m in NOLL.values()]), "modes 1 to 120", 1e-8)
        for n, m in ((16, 4), (15, -7), (20, 0), (17, 17), (18, -18)):
            close(zk.zernike(r, t, n, m, **kw(c)), zern(r, t, n, m, norm), f"mode {(n, m)}", 1e-6)
    elif kind == "grid":
        x = np.linspace(-1, 1, c["size"])
        xx, yy = np.meshgrid(x, x)
        r, t = np.hypot(yy, xx), np.arctan2(yy, xx)
        got = zk.zernike(r, t, np.arange(1, 37))
        for j, g in enumerate(got, 1):
            close(g, zern(r, t, *NOLL[j]), f"mode {j} on a grid")
        # integer coordinates are points too
        ri = np.array([[0, 1], [2, 1]])
        close(zk.zernike(ri, ri * 0, 4), zern(ri.astype(float), ri * 0.0, 2, 0), "integer coordinates")
    elif kind == "seq":
        r, t = pts(c["seed"], c["shape"])
        nm = [NOLL[j] for j in c["js"]]
        n, m = [a for a, _ in nm], [b for _, b in nm]
        if c["form"] == "scalar":
            args, nm = (c["js"][0],), nm[:1]
        elif c["form"] == "noll":
            args = (np.array(c["js"]),)
        elif c["form"] == "pair":
            args = (np.array([n, m]),)
        else:
            args = (np.array(n), np.array(m))
        fr = Frozen("zernike", r, t, *[a for a in args if isinstance(a, np.ndarray)])
        got = zk.zernike(r, t, *args, **kw(c))
        fr.check()
        want = np.array([zern(r, t, a, b, norm) for a, b in nm])
        need(np.size(got) == want.size, f"{np.size(got)} values for {len(nm)} modes of {r.shape} points")
        close(np.reshape(got, want.shape), want, f"modes {nm}")
        need((np.reshape(got, want.shape)[:, r > 1] == 0).all(), "not 0 outside the disk")
    elif kind == "badpair":
        r, t = pts(0, (5,))
        n, m = np.array(c["n"]), np.array(c["m"])
        raises(Exception, lambda: zk.zernike(r, t, n, m), f"zernike of {c['n']}, {c['m']}")
        raises(Exception, lambda: zk.zernike(r, t, np.array([n, m])), f"zernike of pairs {c['n']}, {c['m']}")
    elif kind == "negr":
        r = np.array(c["r"])
        raises(Exception, lambda: zk.zernike(r, r * 0, 4), f"radius {c['r']}")
