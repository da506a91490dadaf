"""radial_profile (utils)."""
from pv.contract import *

DIMS = (1, 2, 3)


def rings(shape, center, b):
    """ring(idx) and the number of rings."""
    def ring(*i):
        return T.rint(T.sqrt(T.psum([(x - c) * (x - c) for x, c in zip(i, center)])) * T.inv(b))
    L = T.op("max", "", [T.lam(list(shape), lambda i: [ring(*i)])], [], 0, "I") + 1
    return ring, L


def profile(shape, ring, f, k):
    """Count, mean and variance of f over ring k."""
    one = lambda v: T.b2i(eq(ring(*v), k))
    n = T.ssum(list(shape), one)
    mean = T.ssum(list(shape), lambda v: one(v) * f(*v)) * T.inv(n)
    var = T.ssum(list(shape), lambda v: one(v) * (f(*v) - mean) * (f(*v) - mean)) * T.inv(n)
    S = lambda g: T.ssum(list(shape), lambda v: ite(eq(ring(*v), k), g(*v), num(0)))
    n2 = S(lambda *v: num(1))
    return n, mean, var, S(lambda *v: f(*v) * f(*v)) * T.inv(n2) - T.power(S(f) * T.inv(n2), 2)


def contract(s):
    w = s.world()
    u = w.module("utils")

    def go(nd, kind, cen, bins, dt=None):
        s.under("utils.radial_profile")
        sh = [ivar(f"n{d}") for d in range(nd)]
        pre = [le(1, x) for x in sh]
        kw = {}
        b = num(1)
        if bins == "real":
            b = rvar("binsize")
            pre.append(lt(0, b))
            kw["binsize"] = pyfloat(b)
        elif bins == "int":
            b = ivar("binsize")
            pre.append(le(1, b))
            kw["binsize"] = pyint(b)
        if cen == "default":
            c = [T.fdiv(x, num(2)) for x in sh]
        elif cen == "int":
            c = [ivar(f"c{d}") for d in range(nd)]
            kw["center"] = tuple(pyint(x) for x in c)
        elif cen == "array":
            kw["center"] = inarr("c", (nd,), "f")
            c = [kw["center"].get([num(d)]) for d in range(nd)]
        else:
            c = [rvar(f"c{d}") for d in range(nd)]
            kw["center"] = [pyfloat(x) for x in c]
        t = f"{nd} axes, {dt or kind}, center {cen}, binsize {bins}"
        data = inarr("x", sh, kind, np.dtype(dt) if dt else None)
        for p in s.paths(lambda: u.radial_profile(data, **kw), pre):
            if not s.returns(f"a profile is returned ({t})", p):
                continue
            mean, std = p.result
            with ctx.at(p.facts):
                ring, L = rings(sh, c, b)
            k = ivar("ring")
            parts = [elem("x", kind, data.dtype)] if kind != "c" else [lambda *i: elem("x", "c")(*i)[0], lambda *i: elem("x", "c")(*i)[1]]
            ex = [le(num(1), profile(sh, ring, parts[0], k)[0])]
            with ctx.at(P.Facts(p.facts.bs + ex, p.facts.foralls)):
                st = [profile(sh, ring, f, k) for f in parts]
            ex += [le(num(0), x[3]) for x in st]

            def at(v):
                return lambda i: T.subst(v, {k.atom().id: i})

            def body(i):
                e = [T.subst(x[1], {k.atom().id: i}) for x in st]
                return tuple(e) if kind == "c" else e[0]

            def dev(i):
                return T.sqrt(T.psum([T.subst(x[2], {k.atom().id: i}) for x in st]))
            for name, r, spec, kk in (("mean", mean, body, "c" if kind == "c" else "f"), ("deviation", std, dev, "f")):
                if not isinstance(r, SArr) or r.ndim != 1:
                    s.add(f"the {name} is one array ({t})", "refuted", type(r))
                    continue
                s.equal(f"number of rings, {name} ({t})", r._shape[0], L, p.facts)
                s.add(f"type of the {name} ({t})", "proved" if r.dtype.kind == kk else "refuted", r.dtype)
                i = ivar("ring")
                f2 = P.Facts(p.facts.bs + [le(0, i), lt(i, r._shape[0])] + ex, p.facts.foralls)
                with ctx.at(f2) as cc:
                    a, bb = r.get([i]), spec(i)
                s.equal(f"{name} of every ring that has a pixel ({t})", a, bb, cc.facts)
            s.unchanged(f"the data are not modified ({t})", p.facts, data)

    import numpy as np
    for nd in DIMS:
        for kind in "fic":
            for cen in ("default", "int", "real", "array"):
                for bins in ("default", "real", "int"):
                    if nd != 2 and (cen in ("int", "array") or bins == "int"):
                        continue
                    s.guard(f"profile ({nd}, {kind}, {cen}, {bins})", lambda: go(nd, kind, cen, bins))
    for dt in ("uint8", "int16", "uint16", "float32"):
        s.guard(f"profile ({dt})", lambda: go(2, np.dtype(dt).kind, "default", "real", dt))
    s.assume("rings without a pixel have no specified value")
    s.assume("integers do not wrap around: the squares of the data fit their type (false for 8 and 16 bit data, whose deviation is not covered)")
    s.lemma("the mean of squares is not below the square of the mean")
    s.lemma("every pixel has exactly one ring: ring() is a function of the pixel")
