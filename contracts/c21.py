"""ApotomeMicroscope (microscope)."""
from pv.contract import *
from .mic import *
from .c08 import rings


def contract(s):
    w = s.world()
    stub_models(w)
    mic = w.module("microscope")
    A = mic.ApotomeMicroscope

    def weight(d, cls, nring):
        """Squared modulus of the radial average of plane z's centred lateral transform at ring nring."""
        sh = (d["size"], d["size"])
        ring, L = rings(sh, [T.fdiv(x, num(2)) for x in sh], num(1))

        def at(z):
            def F(part):
                return lambda v: cdft(False, lambda j: (fine_elem(cls, d, *j), num(0)), (d["zsize"],) + sh, (1, 2), (z,) + tuple(v))[part]
            n = T.ssum(list(sh), lambda v: ite(eq(ring(*v), nring), num(1), num(0)))
            m = [T.ssum(list(sh), lambda v, p=p: ite(eq(ring(*v), nring), F(p)(v), num(0))) * T.inv(n) for p in (0, 1)]
            return m[0] * m[0] + m[1] * m[1]
        return at, L

    def go(model, q, z, more):
        s.under("microscope.ApotomeMicroscope.model_psf", "utils.radial_profile", "utils.easy_fft")
        p = MPar(q)
        cls = model.capitalize() + "PSF"
        kw = p.kw(model, z, **more)
        d = dict(p.fine(), **more)
        t = f"{model}, oversampling {q}, {'own' if z else 'default'} z, {more}"
        abbe = T.rint(d["size"] * d["res"] * 2 * p.na * T.inv(p.wl))
        nring = T.fdiv(abbe, num(2))
        sh0 = (d["size"], d["size"])
        _, L = rings(sh0, [T.fdiv(x, num(2)) for x in sh0], num(1))

        def run():
            READ.clear()
            m = A(**kw)
            r = m.model_psf
            return r, [getattr(m.model, k) for k in NUMS], list(READ)
        for pth in s.paths(run, p.pre + [lt(nring, L), le(num(0), nring)]):
            if not s.returns(f"the PSF can be read ({t})", pth):
                continue
            r, params, read = pth.result
            for k, x in zip(NUMS, params):
                s.equal(f"the model's {k} ({t})", val(x), d[k], pth.facts)
            sh = (d["zsize"], d["size"], d["size"])
            if not isinstance(r, SArr) or r.ndim != 3:
                s.add(f"the PSF has three axes ({t})", "refuted", r)
                continue
            for a in range(3):
                s.equal(f"size of axis {a} ({t})", r._shape[a], sh[a], pth.facts)
            s.add(f"the PSF is real ({t})", "proved" if r.dtype.kind == "f" else "refuted", r.dtype)
            i = [ivar(x) for x in "zyx"]
            j = [ivar(x + "'") for x in "zyx"]
            inr = [b for v in (i, j) for c, n in zip(v, sh) for b in (le(0, c), lt(c, n))]
            psf = lambda v: fine_elem(cls, d, *v)
            f2 = P.Facts(pth.facts.bs + inr + [le(0, psf(v)) for v in (i, j)], pth.facts.foralls)
            with ctx.at(f2) as cc:
                W, _ = weight(d, cls, nring)
                a, b = r.get(i), r.get(j)
                k = [i[0], j[1], j[2]]
                c = r.get(k)
                wi, wj = W(i[0]), W(j[0])
                f3 = P.Facts(cc.facts.bs + [le(0, psf(k))], cc.facts.foralls)
            s.equal(f"within a plane the PSF is scaled by one number ({t})", a * psf(k), c * psf(i), f3)
            s.equal(f"the planes' factors are proportional to the modulus of the radial average ({t})",
                    a * a * wj * psf(j) * psf(j), b * b * wi * psf(i) * psf(i), f3)
            s.prove(f"the factors are not negative ({t})", le(0, a), f3)
            s.unchanged(f"the model's PSF is not modified ({t})", pth.facts, *read)
    vecs = [dict(), dict(vec_corr="total", condition="herschel"), dict(vec_corr="y"), dict(condition="none")]
    k = 0
    for model in ("hanser", "sheppard"):
        for q in (1, 3, 5):
            for z in (True, False):
                m = vecs[k % 4]
                s.guard(f"apotome ({model}, {q}, {z})", lambda: go(model, q, z, m))
                k += 1

    def image(q, z, parity):
        s.under("microscope.ApotomeMicroscope.PSF", "microscope.ApotomeMicroscope.OTF")
        p = MPar(q, 2 * ivar("k") + parity)
        kw = p.kw("hanser", z)
        st = Stub(A, lambda m: (pnum(m.model.wl),))
        t = f"oversampling {q}, {'own' if z else 'default'} z, size {('even', 'odd')[parity]}"

        def run():
            m = st.cls(**kw)
            return m.PSF, m.OTF
        for pth in s.paths(run, p.pre):
            if s.returns(f"PSF and OTF can be read ({t})", pth):
                check_image(s, f"follows from the fine-grid PSF ({t})", pth.facts, *pth.result, p, p.fine(), lambda *i: st.elem((p.wl,), *i))
    for q in (1, 3):
        for parity in (0, 1):
            s.guard(f"PSF ({q}, {parity})", lambda: image(q, parity == 0, parity))
    s.assume("the models' PSFi is used through its contract (C10 to C13): real, not negative, a function of the model's current parameters")
