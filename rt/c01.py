import numpy as np
from .core import *
from pyotf import zernike as zk


def cases(rng, tier):
    yield dict(kind="table")
    for shape in ([], [1], [0], [5], [2, 3], [2, 1, 4], [120]):
        for dt in ("int64", "int32", "int16"):
            yield dict(kind="array", shape=shape, dtype=dt, seed=int(rng.integers(1 << 30)))
    yield dict(kind="pairs")
    for bad in (0, -1, -120, -5):
        yield dict(kind="badnoll", value=bad)
        yield dict(kind="badnoll", value=[1, 2, bad])
        yield dict(kind="badnoll", value=[[1, bad], [2, 3]])
    for bad in (1.0, 2.5, [1.0, 2.0], True, "3"):
        yield dict(kind="badnoll", value=bad)
    yield dict(kind="badnoll", value=[1, 4], dtype="uint8")
    yield dict(kind="badnoll", value=7, dtype="uint64")
    for n, m in ((2, 1), (3, 0), (1, 3), (2, -4), (0, 2), (0, -2), (1, -3), (4, 6), (5, -7), (-1, 1), (-2, 0),
                 (-2, 2), (-4, -2), (-1, -1), (13, 15), (14, -16), (5, 0), (7, -2)):
        yield dict(kind="badpair", n=n, m=m)
        yield dict(kind="badpair", n=[2, n], m=[0, m])
        yield dict(kind="badpair", n=[n, 3, 4], m=[m, 1, 4])
    for n, m in ((2.0, 0), (2, 0.0), (2.0, 0.0), ([2.0, 4.0], [0, 0]), (2.5, 1)):
        yield dict(kind="badpair", n=n, m=m)
    yield dict(kind="badpair", n=4, m=2, dtype="uint8")


def check(c):
    kind = c["kind"]
    if kind == "table":
        for j, (n, m) in NOLL.items():
            gn, gm = zk.noll2degrees(j)
            need((int(gn), int(gm)) == (n, m), f"noll2degrees({j}) = {(int(gn), int(gm))}, Noll's is {(n, m)}")
            need(np.asarray(gn).shape == (), f"noll2degrees({j}) is not a scalar")
            back = zk.degrees2noll(int(gn), int(gm))
            need(int(back) == j, f"degrees2noll{(n, m)} = {back}, expected {j}")
            back = zk.degrees2noll(gn, gm)
            need(int(back) == j, f"degrees2noll(noll2degrees({j})) = {back}")
    elif kind == "array":
        rng = np.random.default_rng(c["seed"])
        a = rng.integers(1, 121, c["shape"]).astype(c["dtype"])
        fr = Frozen("noll2degrees", a)
        n, m = zk.noll2degrees(a)
        fr.check()
        want = [NOLL[int(j)] for j in a.ravel()]
        same(n, np.array([w[0] for w in want], int).reshape(a.shape), f"n of {a!r}")
        same(m, np.array([w[1] for w in want], int).reshape(a.shape), f"m of {a!r}")
        fr = Frozen("degrees2noll", n, m)
        same(zk.degrees2noll(n, m), a, "degrees2noll of the degrees")
        fr.check()
        same(zk.degrees2noll(n.tolist(), m.tolist()) if a.size else a, a, "degrees2noll of lists")
    elif kind == "pairs":
        for j, (n, m) in NOLL.items():
            got = zk.degrees2noll(n, m)
            need(int(got) == j, f"degrees2noll({n}, {m}) = {got}, expected {j}")
    elif kind == "badnoll":
        v = c["value"]
        if "dtype" in c:
            v = np.array(v, dtype=c["dtype"])
        raises(Exception, lambda: zk.noll2degrees(v), f"noll2degrees({v!r})")
    elif kind == "badpair":
        n, m = c["n"], c["m"]
        if "dtype" in c:
            n, m = np.array(n, c["dtype"]), np.array(m, c["dtype"])
        raises(Exception, lambda: zk.degrees2noll(n, m), f"degrees2noll({n!r}, {m!r})")
