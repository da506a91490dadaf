import numpy as np
from .core import *
from pyotf import otf

NUM = ["wl", "na", "ni"]


def cases(rng, tier):
    for cls in ("HanserPSF", "SheppardPSF"):
        for i in range(12 if tier == "quick" else 60):
            p = params(rng, cls)
            yield dict(kind="accept", cls=cls, p=p, kw={})
            for bad in bads(p, cls):
                yield dict(kind="reject", cls=cls, p=p, bad=bad, pre=bool(rng.random() < 0.5))
            for good in goods(p, cls):
                yield dict(kind="accept", cls=cls, p=p, kw=good)


def params(rng, cls):
    p = optics(rng, size=int(rng.integers(2, 9)), zsize=int(rng.integers(2, 7)))
    lim = p["wl"] / 2 / p["ni"]
    p["zres"] = float(f"{lim * rng.uniform(0.3, 0.95):.4g}")
    p["vec_corr"] = VEC[int(rng.integers(5))]
    p["condition"] = COND[int(rng.integers(3))]
    if rng.random() < 0.5:
        p["zres"], p["zsize"] = (None, p["zsize"]) if p["res"] < lim else (p["zres"], None)
    if rng.random() < 0.2 and int(p["wl"]) > 2:
        p["wl"] = int(p["wl"])
    return {k: v for k, v in p.items() if v is not None}


def bads(p, cls):
    for a in NUM:
        for v in (-1, -0.5, "x", None, [1.0], 2j):
            yield {a: v}
    for a in ("size", "zsize"):
        for v in (-1, -64, 8.0, 8.5, "8", [8]):
            yield {a: v}
    abbe = p["wl"] / (2 * p["na"])
    for v in (0, 0.0, -1, -p["res"], abbe * (1 + 1e-9), abbe * 1.0000001, abbe * 2, float(1 / (2 * p["na"] / p["wl"])), "1"):
        yield dict(res=v)
    for v in (0, 0.0, -1, -p["res"], "1"):
        yield dict(zres=v)
    for v in ("foo", "", "XY", "X", "xy", None, 1, "None", "all", "tota"):
        if v is not None:
            yield dict(vec_corr=v)
    for v in ("foo", "", "Sine", "abbe", 1, "vectorial", "herschels"):
        yield dict(condition=v)
    if cls == "SheppardPSF":
        lim = p["wl"] / (2 * p["ni"])
        for v in (lim * (1 + 1e-9), p["wl"] / 2 / p["ni"], lim * 2):
            yield dict(zres=v)
        for v in (1, 0, None, "yes", 1.0):
            yield dict(dual=v)


def goods(p, cls):
    abbe = p["wl"] / (2 * p["na"])
    lim = p["wl"] / (2 * p["ni"])
    yield dict(res=abbe * (1 - 1e-9), zres=lim / 2)
    yield dict(res=abbe * 0.6, zres=lim / 3)
    yield dict(res=abbe * 1e-6, zres=lim * 1e-6)
    yield dict(zres=lim * (1 - 1e-9))
    if cls == "HanserPSF":
        yield dict(zres=lim * 50)
    yield dict(size=5, zsize=11)
    for v in VEC:
        yield dict(vec_corr=v)
    for v in COND:
        yield dict(condition=v)
    if cls == "SheppardPSF":
        yield dict(dual=True)
        yield dict(dual=False)
    if p["wl"] > 3:
        yield dict(na=p["na"] / 2)
        yield dict(ni=p["na"] if cls == "HanserPSF" else p["ni"] * 0.99)


def read(m):
    out = {k: getattr(m, k) for k in ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")}
    if isinstance(m, otf.HanserPSF):
        out["zrange"] = np.array(m.zrange)
    else:
        out["dual"] = m.dual
    return out


def eq_params(a, b, what):
    for k in a:
        x, y = a[k], b[k]
        ok = np.array_equal(x, y) if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) else (type(x) is type(y) and x == y)
        need(ok, f"{what}: {k} reads {x!r}, before {y!r}")


def check(c):
    cls = getattr(otf, c["cls"])
    p = c["p"]
    if c["kind"] == "accept":
        q = dict(p, **c["kw"])
        m = cls(**q)
        r = read(m)
        for k, v in q.items():
            need(type(r[k]) is type(v) and r[k] == v, f"{cls.__name__}({q}): {k} reads {r[k]!r}")
        if "zres" not in q:
            need(r["zres"] == q["res"], f"default zres {r['zres']}")
        if "zsize" not in q:
            need(r["zsize"] == q["size"], f"default zsize {r['zsize']}")
        if "vec_corr" not in q:
            need(r["vec_corr"] == "none" and r["condition"] == "sine", "default correction or condition")
        if c["cls"] == "SheppardPSF" and "dual" not in q:
            need(r["dual"] is False, "default dual")
        if c["kw"]:
            m = cls(**p)
            for k, v in c["kw"].items():
                setattr(m, k, v)
            r = read(m)
            for k, v in q.items():
                need(type(r[k]) is type(v) and r[k] == v, f"{cls.__name__}: assigned {c['kw']}, {k} reads {r[k]!r}")
        return
    (k, v), = c["bad"].items()
    q = dict(p)
    q[k] = v
    q.setdefault("zres", p["res"] if "zres" not in p else p["zres"])
    if k == "res" and "zres" not in p:
        q["zres"] = p["res"]
    raises((TypeError, ValueError), lambda: cls(**q), f"{cls.__name__}({q})")
    m = cls(**p)
    if c.get("pre") and p["size"] > 1:
        m.PSFi
    before = read(m)
    raises((TypeError, ValueError), lambda: setattr(m, k, v), f"{cls.__name__}({p}).{k} = {v!r}")
    eq_params(read(m), before, f"after the rejected {k} = {v!r}")
