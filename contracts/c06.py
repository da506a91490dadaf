"""prep_data_for_PR, remove_bg and center_data (utils)."""
import numpy as np
from pv.contract import *
from .c04 import half


def mode_of(x, sh):
    """The most frequent value: the place of the (first) largest count over 0..max."""
    top = T.op("max", "", [T.lam(list(sh), lambda i: [T.coerce(x(*i))])], [], 0, "I")
    count = lambda v: T.ssum(list(sh), lambda i: ite(eq(x(*i), v), num(1), num(0)))
    return T.op("argmax", "", [T.lam([top + 1], lambda v: [T.drop_const(count(v[0]), v)])], [], 0, "I")


def peak_of(x, sh):
    L = T.lam(list(sh), lambda i: [T.drop_const(T.coerce(x(*i)), i)])
    return [T.op("argmax", "", [L], [], d, "I") for d in range(len(sh))]


def rolled(f, sh, pk):
    """f rolled so that pk comes to n//2."""
    def g(*i):
        src = []
        for a, n, p in zip(i, sh, pk):
            c = a - T.fdiv(n, num(2)) + p
            src.append(ite(lt(c, 0), c + n, ite(lt(c, n), c, c - n)))
        return f(*src)
    return g


def contract(s):
    w = s.world()
    u = w.module("utils")
    SH = [ivar("nz"), ivar("ny"), ivar("nx")]

    def mults(m):
        if m == "default":
            return {}, T.coerce(1.5)
        v = (rvar if m == "real" else ivar)("multiplier")
        return dict(multiplier=(pyfloat if m == "real" else pyint)(v)), v

    def data(name, sh, dt):
        k = np.dtype(dt).kind
        return inarr(name, sh, k, np.dtype(dt))

    def bg(dt, nd, m):
        s.under("utils.remove_bg")
        sh = SH[-nd:]
        x = data("data", sh, dt)
        e = elem("data", np.dtype(dt).kind, np.dtype(dt))
        kw, mv = mults(m)
        t = f"{nd} axes, {dt}, multiplier {m}"
        for p in s.paths(lambda: u.remove_bg(x, **kw), [le(1, n) for n in sh]):
            if isinstance(p.exc, ValueError) and np.dtype(dt).kind == "i":
                s.add(f"only negative data are rejected ({t})", *negative(p, e, sh))
                continue
            if s.returns(f"returns ({t})", p):
                with ctx.at(p.facts):
                    mo = mode_of(e, sh)
                s.array(f"data less the background ({t})", p.facts, p.result, sh, lambda *i: e(*i) - mv * mo, kind="f")
                s.unchanged(f"argument is not modified ({t})", p.facts, x)

    def negative(p, e, sh):
        """The path's condition contradicts that no sample is negative."""
        f = P.Facts(p.facts.bs, p.facts.foralls + [nonneg(e, sh)])
        return ("unknown", pathcond(p)) if P.feasible(f) else ("proved",)

    def nonneg(e, sh):
        return T.lam(list(sh), lambda i: [le(num(0), e(*i))])

    def cen(kind, nd):
        s.under("utils.center_data")
        sh = SH[-nd:]
        x = inarr("data", sh, kind)
        t = f"{nd} axes, {kind}"
        for p in s.paths(lambda: u.center_data(x), [le(1, n) for n in sh]):
            if s.returns(f"returns ({t})", p):
                e = elem("data", kind)
                with ctx.at(p.facts):
                    pk = peak_of(e, sh)
                s.array(f"rolled as a whole, maximum to n//2 ({t})", p.facts, p.result, sh, rolled(e, sh, pk), kind=kind)
                s.unchanged(f"argument is not modified ({t})", p.facts, x)

    def prep(dt, m, xy):
        s.under("utils.prep_data_for_PR", "utils.remove_bg", "utils.center_data", "utils.fft_pad", "utils.slice_maker")
        sh = SH
        k = np.dtype(dt).kind
        x = data("data", sh, dt)
        e = elem("data", k, np.dtype(dt))
        kw, mv = mults(m)
        pre = [le(1, n) for n in sh]
        nz, ny, nx = sh
        if xy == "default":
            size = T.maxv(ny, nx)
        else:
            size = ivar("xysize")
            pre += [le(1, size)]
            kw["xysize"] = pyint(size) if xy == "int" else S(size, DT["i"], False)
        t = f"{dt}, multiplier {m}, xysize {xy}"
        def call():
            del calls[:]
            r = u.prep_data_for_PR(x, **kw)
            return r, bool(calls)
        real, u.center_data = u.center_data, centered(e, sh)
        try:
            ps = s.paths(call, pre)
        finally:
            u.center_data = real
        for p in ps:
            if isinstance(p.exc, ValueError) and k == "i":
                s.add(f"only negative data are rejected ({t})", *negative(p, e, sh))
                continue
            if not s.returns(f"returns ({t})", p):
                continue
            r, stubbed = p.result
            with ctx.at(p.facts):
                mo = mode_of(e, sh)
                pk = peak_of(e, sh)
            f = lambda *i: T.maxv(num(0), e(*i) - mv * mo)
            g = rolled(f, sh, pk)
            if stubbed:
                g = lambda *i: T.maxv(num(0), T.app("centered", tuple(i), "R") - mv * mo)

            def spec(z, y, xx):
                crop = lt(size, T.maxv(ny, nx))
                src, ok = [], []
                for a, n in ((y, ny), (xx, nx)):
                    c = ite(le(n, size), a - (half(size) - half(n)), a + T.fdiv(n, num(2)) - T.fdiv(size, num(2)))
                    src.append(c)
                    ok += [le(0, c), lt(c, n)]
                return ite(band(*ok), ite(crop, g(z, *src), f(z, *src)), num(0))

            def hint(mdl):
                return dict(shape=[mdl(n) for n in sh], xysize=None if xy == "default" else mdl(size), mult=None if m == "default" else mdl(mv),
                            dtype=dt, seed=1)
            s.array(f"prepared stack ({t})", p.facts, r, (nz, size, size), spec, model_hint=hint)
            s.unchanged(f"argument is not modified ({t})", p.facts, x)

    def centered(e, sh):
        """center_data by its contract: the data, rolled, plus whatever constant was added to every sample."""
        def f(data):
            calls.append(1)
            a = sym.asarr(data)
            if len(a._shape) != len(sh) or any(x is not y for x, y in zip(a._shape, sh)):
                raise Unsupported("centring an array of another shape")
            j = [T.mono1(T.fresh("j", "I")) for _ in sh]
            k = T.coerce(sym.to_num(a.get(j))) - e(*j)
            if any(v.atom().id in T.ATOMS[x].fv for v in j for x in k.atoms()):
                raise Unsupported("centring other data")
            get = lambda i: T.app("centered", tuple(i), "R") + k
            r = SArr(get, sh, a.dtype)
            r.orig = get
            return r
        return f

    calls = []

    def peak():
        """What the contract of center_data says of its result: the largest sample is at n//2 of every axis."""
        sh = SH
        e = elem("data")
        f = P.Facts([le(1, n) for n in sh])
        with ctx.at(f) as c:
            pk = peak_of(e, sh)
            f2 = P.Facts(f.bs + [b for n, q in zip(sh, pk) for b in (le(0, q), lt(q, n))])
        with ctx.at(f2):
            s.equal("lemma: the maximum is at n//2", rolled(e, sh, pk)(*[T.fdiv(n, num(2)) for n in sh]), e(*pk), f2)
            n, size = ivar("ny"), ivar("xysize")
            s.prove("lemma: a crop keeps n//2 at xysize//2",
                    eq(T.fdiv(size, num(2)) + T.fdiv(n, num(2)) - T.fdiv(size, num(2)), T.fdiv(n, num(2))), f2)

    for nd in (1, 2, 3):
        for dt in ("uint16", "int64"):
            s.guard(f"remove_bg ({nd}, {dt})", lambda: [bg(dt, nd, m) for m in ("default", "real", "int")])
    for dt in ("uint8", "int32"):
        s.guard(f"remove_bg ({dt})", lambda: bg(dt, 3, "real"))
    for nd in (1, 2, 3):
        for kind in "fi":
            s.guard(f"center_data ({nd}, {kind})", lambda: cen(kind, nd))
    for dt in ("uint16", "int64", "uint8", "int32"):
        for m, xy in (("default", "default"), ("real", "int"), ("int", "int"), ("default", "int"), ("real", "npint"), ("real", "default")):
            if dt in ("uint8", "int32") and xy != "int":
                continue
            s.guard(f"prep_data_for_PR ({dt}, {m}, {xy})", lambda: prep(dt, m, xy))
    s.guard("the maximum", peak)
    s.assume("xysize is at least 1")
    s.assume("the most frequent value, and the maximum, are the first of equals")
    s.lemma("numpy.bincount(v)[k] is the number of samples equal to k, for k up to the maximum; argmax is the first place of a largest element")
    s.lemma("subtracting a constant from every sample does not move the first maximum")
