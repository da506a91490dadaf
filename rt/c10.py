import copy
import numpy as np
from .core import *
from pyotf import otf

OUT = ["PSFa", "OTFa", "PSFi", "OTFi"]


def cases(rng, tier):
    for cls in ("HanserPSF", "SheppardPSF"):
        # every parameter, every output read before
        for o in OUT:
            for a in ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition",
                      "zrange" if cls[0] == "H" else "dual"):
                yield dict(cls=cls, seed=int(rng.integers(1 << 30)), ops=[["read", o], ["set", a]])
        for i in range(120 if tier == "quick" else 1500):
            ops = []
            for _ in range(int(rng.integers(2, 8))):
                r = rng.random()
                if r < 0.4:
                    ops.append(["read", OUT[int(rng.integers(4))]])
                elif r < 0.78:
                    names = ["wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition"]
                    names += ["zrange", "zrange"] if cls[0] == "H" else ["dual"]
                    ops.append(["set", names[int(rng.integers(len(names)))]])
                elif r < 0.84:
                    ops.append(["same"])
                elif r < 0.9:
                    ops.append(["copy"])
                elif r < 0.93:
                    ops.append(["bad"])
                elif cls[0] == "H":
                    ops.append(["pupil"])
            yield dict(cls=cls, seed=int(rng.integers(1 << 30)), ops=ops)


def new_value(rng, m, a):
    wl, na, ni = m.wl, m.na, m.ni
    if a == "wl":
        return wl * float(rng.choice([1.1, 1.05, 1.2]))
    if a == "na":
        return na * float(rng.choice([0.9, 0.8, 0.95]))
    if a == "ni":
        lo = max(na * 1.02, ni * 0.97)
        return lo if lo != ni else ni * 0.99
    if a == "res":
        return wl / 2 / na * float(rng.uniform(0.4, 0.9))
    if a == "zres":
        return wl / 2 / ni * float(rng.uniform(0.4, 0.9))
    if a == "size":
        return int(rng.integers(2, 8))
    if a == "zsize":
        return int(rng.integers(2, 6))
    if a == "vec_corr":
        return VEC[int(rng.integers(5))]
    if a == "condition":
        return COND[int(rng.integers(3))]
    if a == "dual":
        return bool(rng.integers(2))
    if a == "zrange":
        if rng.random() < 0.2:
            return float(rng.normal())
        return (rng.normal(size=int(rng.integers(1, 5))) * wl).tolist()


def fresh_of(m, cls):
    kw = {k: getattr(m, k) for k in ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")}
    if cls is otf.HanserPSF:
        kw["zrange"] = np.array(m.zrange)
    else:
        kw["dual"] = m.dual
    return cls(**kw)


def read(m):
    out = {k: copy.deepcopy(getattr(m, k)) for k in ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")}
    out["extra"] = np.array(m.zrange) if isinstance(m, otf.HanserPSF) else m.dual
    return out


def compare(m, cls, pupil, names, what):
    f = fresh_of(m, cls)
    if pupil is not None:
        f.apply_pupil(pupil.copy())
    before = read(m)
    for o in names:
        g, w = getattr(m, o), getattr(f, o)
        need(g.shape == w.shape, f"{what}: {o} has shape {g.shape}, a fresh model {w.shape}")
        need(np.allclose(g, w, rtol=1e-7, atol=1e-9 * max(1e-30, np.abs(w).max()), equal_nan=True),
             f"{what}: {o} differs from a fresh model's")
    after = read(m)
    for k in before:
        need(np.array_equal(before[k], after[k]), f"{what}: reading {names} changed {k} from {before[k]} to {after[k]}")
    for o in names:
        need(getattr(m, o) is getattr(m, o) or np.array_equal(getattr(m, o), getattr(m, o), equal_nan=True), f"{what}: {o} not stable")


def check(c):
    cls = getattr(otf, c["cls"])
    rng = np.random.default_rng(c["seed"])
    p = optics(rng, size=int(rng.integers(2, 8)), zsize=int(rng.integers(2, 6)))
    p["zres"] = p["wl"] / 2 / p["ni"] * float(rng.uniform(0.4, 0.9))
    p["vec_corr"] = VEC[int(rng.integers(5))]
    p["condition"] = COND[int(rng.integers(3))]
    shared = None
    if cls is otf.HanserPSF and rng.random() < 0.4:
        shared = rng.normal(size=3) * p["wl"]
        p["zrange"] = shared
    m = cls(**p)
    if shared is not None:
        same(m.zrange, shared, "zrange")
    pupil = None
    hist = []
    others = []
    for op in c["ops"]:
        if op[0] == "read":
            before = {k: np.array(v) for k, v in vars(m).items() if k in OUT}
            compare(m, cls, pupil, [op[1]], f"after {hist}")
            for k, v in before.items():
                need(np.array_equal(getattr(m, k), v, equal_nan=True), f"after {hist}: reading {op[1]} changed {k}")
            hist.append(op[1])
        elif op[0] == "set":
            a = op[1]
            v = new_value(rng, m, a)
            before = read(m)
            old = np.array(getattr(m, a))
            arg = np.array(v) if a == "zrange" and isinstance(v, list) and rng.random() < 0.5 else v
            try:
                setattr(m, a, arg)
            except ValueError:
                hist.append(f"{a}={v!r} rejected")
                continue
            hist.append(f"{a}={v!r}")
            after = read(m)
            for k in before:
                if k == a or (k == "extra" and a in ("zres", "zsize", "zrange", "dual")):
                    continue
                need(np.array_equal(before[k], after[k]), f"{hist}: {k} changed from {before[k]} to {after[k]}")
            if a != "zrange":
                need(type(getattr(m, a)) is type(v) and getattr(m, a) == v, f"{hist}: {a} reads {getattr(m, a)!r}")
            else:
                same(m.zrange, np.atleast_1d(np.array(v)), f"{hist}: zrange")
                if isinstance(arg, np.ndarray):
                    keep = arg.copy()
                    arg += 1
                    same(m.zrange, np.atleast_1d(keep), f"{hist}: zrange is shared with the caller's array")
            if a in ("zsize", "zres") and cls is otf.HanserPSF:
                if a == "zres" or not np.array_equal(old, np.array(v)):
                    close(m.zrange, (np.arange(m.zsize) - m.zsize // 2) * m.zres, f"{hist}: zrange")
            if not np.array_equal(old, np.array(getattr(m, a))):
                pupil = None
            elif pupil is not None:
                # a parameter that is assigned the value it has may or may not forget the pupil
                m.apply_pupil(pupil.copy())
        elif op[0] == "same":
            a = ["wl", "na", "ni", "size", "zsize"][int(rng.integers(5))]
            if pupil is None:
                zr = np.array(m.zrange) if cls is otf.HanserPSF else None
                std = (np.arange(m.zsize) - m.zsize // 2) * m.zres
                if a == "zsize" and zr is not None and (zr.shape != std.shape or not np.allclose(zr, std)):
                    continue
                setattr(m, a, getattr(m, a))
                hist.append(f"{a}=same")
        elif op[0] == "bad":
            before = read(m)
            outs = {k: np.array(v) for k, v in vars(m).items() if k in OUT}
            a, v = [("wl", -1), ("na", "x"), ("res", 1e9), ("zres", -1), ("vec_corr", "foo"), ("condition", "bar"), ("size", -2)][int(rng.integers(7))]
            try:
                setattr(m, a, v)
            except (TypeError, ValueError):
                pass
            hist.append(f"{a}={v!r} (bad)")
            for k in before:
                need(np.array_equal(before[k], read(m)[k]), f"{hist}: {k} changed")
        elif op[0] == "copy":
            others.append((m, pupil, list(hist)))
            m = copy.copy(m)
            hist.append("copy")
        elif op[0] == "pupil":
            n = m.size
            pupil = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
            kr, _ = hanser_grid(dict(size=n, res=m.res))
            pupil = pupil * (kr < m.na / m.wl)
            fr = Frozen("apply_pupil", pupil)
            before = read(m)
            m.apply_pupil(pupil)
            fr.check()
            for k in before:
                need(np.array_equal(before[k], read(m)[k]), f"{hist}: apply_pupil changed {k}")
            hist.append("pupil")
    compare(m, cls, pupil, OUT, f"after {hist}")
    for o, pu, h in others:
        compare(o, cls, pu, OUT, f"the original of a copy made after {h}, then {hist[len(h):]}")
