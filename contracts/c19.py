"""ConfocalMicroscope and _disk_kernel (microscope)."""
from pv.contract import *
from .mic import *


def contract(s):
    w = s.world()
    stub_models(w)
    mic = w.module("microscope")
    C = mic.ConfocalMicroscope
    AU = T.coerce(1.22)

    def disk(R):
        """The normalized disk on the offsets -h..h, h = ceil(R)."""
        c = T.ceil(2 * R)
        K = ite(eq(T.mod(c, num(2)), num(0)), c + 1, c)
        h = T.fdiv(K - 1, num(2))

        def inside(a, b):
            return T.b2i(lt(T.sqrt((a - h) * (a - h) + (b - h) * (b - h)), R))
        return K, h, inside, T.ssum([K, K], lambda v: inside(*v))

    def kernel():
        s.under("microscope._disk_kernel")
        R = rvar("radius")
        for pth in s.paths(lambda: mic._disk_kernel(pyfloat(R)), [lt(num("3/2"), R)]):
            if not s.returns("the kernel can be made", pth):
                continue
            with ctx.at(pth.facts):
                K = pth.result._shape[0]
                h = T.fdiv(K - 1, num(2))
            s.prove("the kernel's size is odd", eq(K, 2 * h + 1), pth.facts)
            s.prove("every offset within the radius lies in the kernel", lt(R, h + 2), pth.facts)

            def inside(a, b):
                return T.b2i(lt(T.sqrt((a - h) * (a - h) + (b - h) * (b - h)), R))
            s.array("the kernel is the normalized disk", pth.facts, pth.result, (K, K),
                    lambda a, b: inside(a, b) * T.inv(T.ssum([K, K], lambda v: inside(*v))), kind="f")
    s.guard("_disk_kernel", kernel)

    def confocal(p, d, exc, pin, cls, point):
        em = lambda *i: fine_elem(cls, d, *i)
        ex = lambda *i: fine_elem(cls, dict(d, wl=exc), *i)
        if point:
            return lambda *i: em(*i) * ex(*i)
        R = pin * AU * p.wl * T.inv(p.na) * T.inv(d["res"]) * num("1/2")
        K, h, inside, cnt = disk(R)
        N = d["size"]

        def el(z, y, x):
            def t(v):
                a, b = y + h - v[0], x + h - v[1]
                return ite(band(le(num(0), a), lt(a, N), le(num(0), b), lt(b, N)), em(z, a, b) * inside(*v), num(0)) * T.inv(cnt)
            return T.ssum([K, K], t) * ex(z, y, x)
        return el

    def go(model, q, z, more, hist, point):
        s.under("microscope.ConfocalMicroscope.model_psf", "microscope.ConfocalMicroscope.__init__", "microscope.ConfocalMicroscope.wl_exc",
                "microscope.ConfocalMicroscope.pinhole_size", "microscope._disk_kernel")
        p = MPar(q)
        cls = model.capitalize() + "PSF"
        kw = p.kw(model, z, **more)
        d = dict(p.fine(), **more)
        v = [rvar("exc0"), rvar("exc1"), rvar("pin0"), rvar("pin1")]
        lim = max
        pre = p.pre + [le(num(0), v[2]), le(num(0), v[3])]
        for e in v[:2]:
            pre += [lt(2 * p.px * p.na, e * p.q), lt(2 * d["zres"] * p.ni, e)]
        last = v[3] if "pin" in hist else v[2]
        R = last * AU * p.wl * T.inv(p.na) * T.inv(d["res"]) * num("1/2")
        pre.append(le(R, num("3/2")) if point else lt(num("3/2"), R))
        t = f"{model}, oversampling {q}, {'own' if z else 'default'} z, {more}, {hist or 'new'}, {'point' if point else 'disk'}"

        def run():
            READ.clear()
            m = C(wl_exc=pyfloat(v[0]), pinhole_size=pyfloat(v[2]), **kw)
            for op in hist.split():
                if op == "read":
                    m.model_psf, m.wl_exc, m.pinhole_size
                elif op == "exc":
                    m.wl_exc = pyfloat(v[1])
                elif op == "pin":
                    m.pinhole_size = pyfloat(v[3])
                elif op == "same":
                    m.wl_exc = m.wl_exc
                    m.pinhole_size = m.pinhole_size
            r = m.model_psf
            return r, m.wl_exc, m.pinhole_size, [getattr(m.model, k) for k in NUMS], m.model.PSFi, list(READ)
        e = v[1] if "exc" in hist else v[0]
        for pth in s.paths(run, pre):
            if not s.returns(f"the PSF can be read ({t})", pth):
                continue
            r, we, ps, params, em, read = pth.result
            s.equal(f"wl_exc reads back ({t})", val(we), e, pth.facts)
            s.equal(f"pinhole_size reads back ({t})", val(ps), last, pth.facts)
            for k, x in zip(NUMS, params):
                s.equal(f"the emission model's {k} ({t})", val(x), d[k], pth.facts)
            sh = (d["zsize"], d["size"], d["size"])
            with ctx.at(pth.facts):
                spec = confocal(p, d, e, last, cls, point)
            s.array(f"fine-grid PSF ({t})", pth.facts, r, sh, spec, kind="f")
            s.array(f"emission PSF ({t})", pth.facts, em, sh, lambda *i: fine_elem(cls, d, *i), kind="f")
            s.unchanged(f"the models' PSFs are not modified ({t})", pth.facts, *read)

    hists = ["", "read exc", "read pin", "exc", "pin", "read exc pin read", "pin read exc", "same", "read same"]
    vecs = [dict(), dict(vec_corr="total", condition="herschel"), dict(vec_corr="y"), dict(condition="none")]
    k = 0
    for point in (True, False):
        for i, hist in enumerate(hists):
            for model in ("hanser", "sheppard"):
                for q in (1, 3):
                    m = vecs[k % 4]
                    s.guard(f"confocal ({model}, {q}, {hist}, {point})", lambda: go(model, q, (k // 2) % 2 == 0, m, hist, point))
                    k += 1

    def image(q, z, parity, hist):
        s.under("microscope.ConfocalMicroscope.PSF", "microscope.ConfocalMicroscope.OTF", "microscope.WidefieldMicroscope._attribute_changed",
                "microscope.ConfocalMicroscope.wl_exc", "microscope.ConfocalMicroscope.pinhole_size")
        p = MPar(q, 2 * ivar("k") + parity)
        kw = p.kw("hanser", z)
        d = p.fine()
        v = [rvar("exc0"), rvar("exc1"), rvar("pin0"), rvar("pin1")]
        pre = p.pre + [le(num(0), v[2]), le(num(0), v[3])]
        for e in v[:2]:
            pre += [lt(2 * p.px * p.na, e * p.q), lt(2 * d["zres"] * p.ni, e)]
        st = Stub(C, lambda m: (pnum(m.model_exc.wl), pnum(m.pinhole_size), pnum(m.model.wl)))
        t = f"oversampling {q}, {'own' if z else 'default'} z, size {('even', 'odd')[parity]}, {hist}"

        def run():
            st.read.clear()
            m = st.cls(wl_exc=pyfloat(v[0]), pinhole_size=pyfloat(v[2]), **kw)
            for op in hist.split():
                if op == "psf":
                    m.PSF
                elif op == "otf":
                    m.OTF
                elif op == "exc":
                    m.wl_exc = pyfloat(v[1])
                elif op == "pin":
                    m.pinhole_size = pyfloat(v[3])
            o = m.OTF if hist.endswith("otf") else None
            r = m.PSF
            return r, o if o is not None else m.OTF, list(st.read)
        for pth in s.paths(run, pre):
            if not s.returns(f"PSF and OTF can be read ({t})", pth):
                continue
            r, o, read = pth.result
            g = (v[1] if "exc" in hist else v[0], v[3] if "pin" in hist else v[2], p.wl)
            check_image(s, f"follows from the fine-grid PSF of the current settings ({t})", pth.facts, r, o, p, d, lambda *i: st.elem(g, *i))
            s.unchanged(f"the fine-grid PSF is not modified ({t})", pth.facts, *read)
    k = 0
    for hist in ("", "psf exc", "psf pin", "otf exc otf", "otf pin otf", "psf otf exc psf pin", "pin psf exc"):
        for q in (1, 3, 5):
            s.guard(f"PSF ({hist}, {q})", lambda: (image(q, k % 2 == 0, 0, hist), image(q, k % 2 == 1, 1, hist)))
            k += 1

    def bad():
        s.under("microscope.ConfocalMicroscope.pinhole_size")
        p = MPar(1)
        x = rvar("x")
        kw = p.kw("hanser")
        for pth in s.paths(lambda: C(wl_exc=pyfloat(p.wl), pinhole_size=pyfloat(x), **kw), p.pre + [lt(x, 0)]):
            s.raises("a negative pinhole_size is rejected", pth, (TypeError, ValueError))
    s.guard("rejections", bad)
    s.assume("the models' PSFi is used through its contract (C10 to C13): a function of the model's current parameters")
