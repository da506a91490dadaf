"""Zernike decompositions and PSFs of a retrieval result (phaseretrieval), with zernike used through its contract."""
from pv.contract import *
from .optics import *
from .c15 import noll, stub_zernike


def contract(s):
    w = s.world()
    pr = w.module("phaseretrieval")
    o = w.module("otf")
    stub_zernike(w)
    P_ = Par()
    n = P_.n
    N = ivar("modes")
    me, pe = elem("mag"), elem("phase")
    PARAMS = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")
    FIT = ("phaseretrieval.PhaseRetrievalResult.__init__", "phaseretrieval.PhaseRetrievalResult.fit_to_zernikes",
           "phaseretrieval._fit_to_zerns", "phaseretrieval.ZernikeDecomposition.__init__")
    REC = FIT + ("phaseretrieval.ZernikeDecomposition.mag", "phaseretrieval.ZernikeDecomposition.phase",
                 "phaseretrieval.ZernikeDecomposition.complex_pupil", "phaseretrieval._recon_from_zerns")

    def polar(y, x):
        """Radius (1 at the diffraction limit) and angle of a pixel of the centred pupil."""
        h = T.fdiv(n, num(2))
        ky, kx = [(i - h) * T.inv(n * P_.res) for i in (y, x)]
        return T.sqrt(kx * kx + ky * ky) * P_.wl * T.inv(P_.na), T.atan2(ky, kx)

    def mode(j, y, x):
        return noll(j + 1, *polar(y, x))

    def coef(e):
        """Coefficient k: least squares over the points with r <= 1, by the normal equations."""
        inside = lambda u: le(polar(*u)[0], num(1))
        G = T.lam([N, N], lambda i: [T.ssum([n, n], lambda u: ite(inside(u), mode(i[0], *u) * mode(i[1], *u), num(0)))])
        h = T.lam([N], lambda i: [T.ssum([n, n], lambda u: ite(inside(u), mode(i[0], *u) * e(*u), num(0)))])
        return lambda k: T.op("lstsq", "", [G, h], [k], 0)

    def result(vec="none", cond="none", kw=None):
        model = o.HanserPSF(vec_corr=vec, condition=cond, **P_.kw(**(kw if kw is not None else P_.kz())))
        mag, phase = inarr("mag", (n, n)), inarr("phase", (n, n))
        hist = [inarr(k, (ivar("m"),)) for k in ("mse", "pdiff", "mdiff")]
        return pr.PhaseRetrievalResult(mag, phase, hist[0], hist[1], hist[2], model), mag, phase, hist, model

    def build():
        s.under("phaseretrieval.PhaseRetrievalResult.__init__", "phaseretrieval.PhaseRetrievalResult.complex_pupil")

        def run():
            r, mag, phase, hist, model = result()
            r2 = pr.PhaseRetrievalResult(mag=mag, phase=phase, mse=hist[0], pupil_diff=hist[1], mse_diff=hist[2], model=model)
            return r, r2, mag, phase, hist, model, r.complex_pupil
        for p in s.paths(run, P_.pre + P_.prez):
            if not s.returns("a result can be built", p):
                continue
            r, r2, mag, phase, hist, model, cp = p.result
            for q in (r, r2):
                for k, v in (("mag", mag), ("phase", phase), ("mse", hist[0]), ("pupil_diff", hist[1]), ("mse_diff", hist[2])):
                    s.array(f"{k} is the one given", p.facts, getattr(q, k), v._shape, lambda *i: v.orig(tuple(i)))
                s.add("the model is the one given", "proved" if q.model is model else "refuted", q.model)
            s.array("complex pupil", p.facts, cp, (n, n), lambda y, x: (me(y, x) * T.cos(pe(y, x)), me(y, x) * T.sin(pe(y, x))))
            s.unchanged("the arguments are not modified", p.facts, mag, phase, *hist)
    s.guard("construction", build)

    def frame(t, p, mag, phase, model, before, after):
        for k in PARAMS:
            a, b = after[k], before[k]
            if isinstance(a, str):
                s.add(f"the model's {k} ({t})", "proved" if a == b else "refuted", a)
            else:
                s.equal(f"the model's {k} ({t})", sym.to_num(val(a)), sym.to_num(val(b)), p.facts)
        for k in ("zrange", "PSFa"):
            s.array(f"the model's {k} ({t})", p.facts, after[k], before[k]._shape, lambda *i: before[k].get(list(i)))
        s.unchanged(f"the result is not modified ({t})", p.facts, mag, phase)

    def state(model, psf=True):
        d = {k: getattr(model, k) for k in PARAMS}
        d["zrange"] = model.zrange.copy()
        d["PSFa"] = model.PSFa.copy()
        return d

    def fit():
        s.under(*FIT)

        def run():
            r, mag, phase, hist, model = result()
            b = state(model)
            z = r.fit_to_zernikes(pyint(N))
            return r, z, mag, phase, model, b, state(model)
        for p in s.paths(run, P_.pre + P_.prez + [le(1, N)]):
            if not s.returns("the fit is made", p):
                continue
            r, z, mag, phase, model, b, a = p.result
            s.add("zd_result is what was returned", "proved" if r.zd_result is z else "refuted", r.zd_result)
            for k, c, e in (("magnitude", z.mcoefs, me), ("phase", z.pcoefs, pe)):
                want = coef(e)
                s.array(f"{k} coefficients", p.facts, c, (N,), lambda i: want(i))
            frame("fit", p, mag, phase, model, b, a)
    s.guard("fit", fit)

    A, B_ = ivar("start"), ivar("stop")
    st = lambda a=None, b=None, c=None: slice(None if a is None else pyint(T.coerce(a)), None if b is None else pyint(T.coerce(b)), c)
    low = lambda v: T.minv(v, N)

    def sels():
        """Selections, with the number of selected modes and the k-th of them."""
        yield "all", slice(None), [], N, lambda k: k
        yield "slice(4, None)", slice(4, None, None), [], T.maxv(N - 4, num(0)), lambda k: k + 4
        yield "slice(a, b)", st(A, B_), [le(0, A), le(0, B_)], T.maxv(low(B_) - low(A), num(0)), lambda k: k + A
        yield "slice(b)", st(None, B_), [le(0, B_)], low(B_), lambda k: k
        yield "slice(a, None)", st(A), [le(0, A)], T.maxv(N - A, num(0)), lambda k: k + A
        yield "slice(None, None, 2)", slice(None, None, 2), [], T.fdiv(N + 1, num(2)), lambda k: 2 * k
        yield "slice(-1, None)", slice(-1, None), [], num(1), lambda k: N - 1
        yield "slice(None, -1)", slice(None, -1), [], N - 1, lambda k: k

    # a decomposition of any coefficients, by its class invariant (the fit establishes it): zerns[j] is mode j + 1
    ce, de = elem("mcoefs"), elem("pcoefs")

    def decomposition():
        el = lambda idx: mode(*idx)
        z = SArr(el, (N, n, n), DT["f"])
        z.orig = el
        mc, pc = inarr("mcoefs", (N,)), inarr("pcoefs", (N,))
        return pr.ZernikeDecomposition(mc, pc, z), mc, pc, z

    def recon(e, cnt, at):
        return lambda y, x: T.ssum([cnt], lambda k: e(at(k[0])) * mode(at(k[0]), y, x))

    def rebuild(i, j):
        s.under(*REC)
        (ta, sa, ca, na_, fa), (tb, sb, cb, nb_, fb) = [list(sels())[k] for k in (i, j)]
        t = f"{ta} and {tb}"
        a, b = recon(ce, na_, fa), recon(de, nb_, fb)
        pol = lambda y, x: (a(y, x) * T.cos(b(y, x)), a(y, x) * T.sin(b(y, x)))

        def run():
            z, mc, pc, zs = decomposition()
            return z.mag(sa), z.phase(sb), z.complex_pupil(sa, sb), z.complex_pupil(smag=sa, sphase=sb), mc, pc, zs
        for p in s.paths(run, P_.pre + P_.prez + [le(1, N)] + ca + cb):
            if not s.returns(f"the pupil is rebuilt ({t})", p):
                continue
            m, ph, c1, c2, mc, pc, zs = p.result
            s.array(f"magnitude ({t})", p.facts, m, (n, n), a)
            s.array(f"phase ({t})", p.facts, ph, (n, n), b)
            s.array(f"complex pupil ({t})", p.facts, c1, (n, n), pol)
            s.array(f"complex pupil by keyword ({t})", p.facts, c2, (n, n), pol)
            s.unchanged(f"the decomposition is not modified ({t})", p.facts, mc, pc, zs)
    k = len(list(sels()))
    for i in range(k):
        for j in (0, i, (i + 1) % k):
            s.guard(f"rebuild {i} {j}", lambda: rebuild(i, j))

    def default():
        s.under(*REC)
        a, b = recon(ce, N, lambda k: k), recon(de, N, lambda k: k)

        def run():
            z = decomposition()[0]
            return z.complex_pupil()
        for p in s.paths(run, P_.pre + P_.prez + [le(1, N)]):
            if s.returns("the pupil is rebuilt by default", p):
                s.array("complex pupil of all modes", p.facts, p.result, (n, n), lambda y, x: (a(y, x) * T.cos(b(y, x)), a(y, x) * T.sin(b(y, x))))
    s.guard("rebuild by default", default)

    def fitted():
        """The class invariant: the decomposition that a fit returns holds the modes."""
        s.under(*FIT)
        for p in s.paths(lambda: result()[0].fit_to_zernikes(pyint(N)), P_.pre + P_.prez + [le(1, N)]):
            if s.returns("the fit is made", p):
                s.array("modes of the decomposition", p.facts, p.result.zerns, (N, n, n), mode)
    s.guard("modes of a fit", fitted)

    # ------------------------------------------------------------------------------------ PSFs
    M = ivar("lateral")
    SH = ("none", "pad", "crop")

    def psf(which, size, z, prior):
        s.under("phaseretrieval.PhaseRetrievalResult._generate_psf", "phaseretrieval.PhaseRetrievalResult.generate_psf",
                "phaseretrieval.PhaseRetrievalResult.generate_zd_psf", "phaseretrieval.PhaseRetrievalResult.complex_pupil")
        t = f"{which}, size {size}, z {z}, model {prior}"
        kw, pre, mk = {}, list(P_.pre + P_.prez + [le(1, N), le(1, M)]), dict(P_.kz())
        zl, nz2 = ivar("zlen"), ivar("zsize2")
        if z == "zsize":
            kw["zsize"] = pyint(nz2)
            mk["zsize"] = pyint(nz2)
            pre.append(le(1, nz2))
        elif z == "zrange":
            kw["zrange"] = inarr("zrange", (zl,))
            pre.append(le(1, zl))
        elif z == "list":
            kw["zrange"] = [pyfloat(rvar(f"z{k}")) for k in range(2)]
        if size != "none":
            kw["size"] = pyint(M)
        sel = slice(None, 3)

        def run():
            r, mag, phase, hist, model = result("x" if prior == "x" else "none", "sine" if prior == "x" else "none")
            if prior == "pupil":
                q = elem("prior", "c")
                model.apply_pupil(SArr(lambda i: q(*i), (n, n), DT["c"]))
            b = state(model)
            if which == "retrieved":
                pup = lambda y, x: (me(y, x) * T.cos(pe(y, x)), me(y, x) * T.sin(pe(y, x)))
                got = r.generate_psf(**kw)
            else:
                d = decomposition()[0]
                r.zd_result = d
                na_, nb_ = recon(ce, N, lambda k: k), {"zd": recon(de, T.maxv(N - 4, num(0)), lambda k: k + 4), "zd, three phases": recon(de, low(num(3)), lambda k: k)}[which]
                pup = lambda y, x: (na_(y, x) * T.cos(nb_(y, x)), na_(y, x) * T.sin(nb_(y, x)))
                got = r.generate_zd_psf(**kw) if which == "zd" else r.generate_zd_psf(sel, **kw)
            a = state(model)
            # the retrieval model with that pupil: a model of the same parameters
            ref = o.HanserPSF(vec_corr=model.vec_corr, condition=model.condition, **P_.kw(**mk))
            if "zrange" in kw:
                ref.zrange = kw["zrange"]
            h = T.fdiv(n, num(2))

            def el(i):
                y, x = [ite(lt(v, n - h), v + h, v + h - n) for v in i]
                return pup(y, x)
            ref.apply_pupil(SArr(el, (n, n), DT["c"]))
            return got, ref.PSFi, mag, phase, model, b, a
        for p in s.paths(run, pre):
            if not s.returns(f"a PSF is generated ({t})", p):
                continue
            got, ref, mag, phase, model, b, a = p.result
            if size == "none":
                s.array(f"PSF ({t})", p.facts, got, ref._shape, lambda *i: ref.get(list(i)))
            else:
                def spec(k, y, x):
                    u, v = [i - centre(M, n) for i in (y, x)]
                    return ite(band(le(0, u), lt(u, n), le(0, v), lt(v, n)), ref.get([k, u, v]), num(0))
                s.array(f"PSF ({t})", p.facts, got, (ref._shape[0], M, M), spec)
            frame(t, p, mag, phase, model, b, a)

    def centre(m, k):
        """Where sample 0 of a lateral axis of k samples comes to lie on one of m."""
        return ite(lt(k, m), T.fdiv(m + 1, num(2)) - T.fdiv(k + 1, num(2)), T.fdiv(m, num(2)) - T.fdiv(k, num(2)))

    for which in ("retrieved", "zd", "zd, three phases"):
        for size in ("none", "any"):
            for z in ("none", "zsize", "zrange", "list"):
                for prior in ("fresh", "pupil", "x"):
                    if prior != "fresh" and (z != "none" or which != "retrieved") or which[-1] == "s" and z != "none":
                        continue
                    s.guard(f"PSF ({which}, {size}, {z}, {prior})", lambda: psf(which, size, z, prior))
    s.lemma("numpy.linalg.lstsq returns the least squares solution of least norm, which the normal equations determine")
    s.lemma("zernike(r, theta, indices) holds, for each index in order, an unknown function of index, r and theta, axes of length one squeezed (C02, C23)")
    s.assume("reconstruction is proved for any decomposition whose zerns are the modes, which fit_to_zernikes is proved to establish")
