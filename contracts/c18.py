"""WidefieldMicroscope (microscope)."""
from pv.contract import *
from .mic import *


def contract(s):
    w = s.world()
    stub_models(w)
    mic = w.module("microscope")
    W = mic.WidefieldMicroscope

    def go(model, q, z, more, parity, order):
        s.under("microscope.WidefieldMicroscope.PSF", "microscope.WidefieldMicroscope.OTF", "microscope.WidefieldMicroscope.__init__",
                "microscope.WidefieldMicroscope.model_psf", "microscope._choose_model")
        pre = []
        qq = num(q) if q != "odd" else 2 * ivar("h") + 1
        if q == "odd":
            pre = [le(1, ivar("h"))]
        n = ivar("size") if parity is None else 2 * ivar("k") + parity
        p = MPar(qq, n)
        pre = p.pre + pre
        kw = p.kw(model, z, **more)
        cls = model.capitalize() + "PSF"
        t = f"{model}, oversampling {q}, {'own' if z else 'default'} z, {more}, size {('even', 'odd')[parity] if parity is not None else 'any'}, {order}"
        d = dict(p.fine(), **more)
        nz = d["zsize"]

        def fine(*i):
            return fine_elem(cls, d, *i)
        img = binned(d, p.q, p.n, fine) if q != 1 else (lambda z, y, x: fine(z, y, x))

        def run():
            READ.clear()
            m = W(**kw)
            if order == "otf first":
                o = m.OTF
                r = m.PSF
            else:
                r = m.PSF
                o = m.OTF
            mm = m.model
            return r, o, m.model_psf, [getattr(mm, k) for k in NUMS], list(READ)
        for pth in s.paths(run, pre):
            if not s.returns(f"PSF and OTF can be read ({t})", pth):
                continue
            r, o, mp, params, read = pth.result
            sh = (nz, p.n, p.n)
            for k, v in zip(NUMS, params):
                s.equal(f"the model's {k} ({t})", val(v), d[k], pth.facts)
            tot = T.ssum(list(sh), lambda i: img(*i))
            s.array(f"PSF is the binned model PSF over its total ({t})", pth.facts, r, sh, lambda *i: img(*i) * T.inv(tot), kind="f")
            s.array(f"OTF is the centred transform of PSF ({t})", pth.facts, o, sh,
                    lambda *i: cdft(False, lambda j: (r.get(j), num(0)), sh, (0, 1, 2), i), kind="c")
            fs = (nz, p.n * p.q, p.n * p.q)
            s.array(f"model_psf is the model's PSF ({t})", pth.facts, mp, fs, fine)
            s.unchanged(f"the model's PSF is not modified ({t})", pth.facts, *read)

    vecs = [dict(), dict(vec_corr="total", condition="herschel"), dict(vec_corr="x"), dict(condition="none")]
    k = 0
    for model in ("hanser", "sheppard", "HANSER", "Sheppard"):
        for q in (1, 3, 5, 7, "odd"):
            for parity in (None,) if q == 1 else (0, 1):
                for z in (True, False):
                    m, o = vecs[k % 4], ("psf first", "otf first")[k % 2]
                    s.guard(f"PSF ({model}, {q}, {z}, {parity})", lambda: go(model, q, z, m, parity, o))
                    k += 1

    def bad():
        s.under("microscope.WidefieldMicroscope.__init__", "microscope._choose_model")
        p = MPar(1)
        f = ivar("f")
        for name, pr in (("even", [eq(f, 2 * ivar("k"))]), ("negative", [lt(f, 0)])):
            kw = p.kw("hanser", oversample_factor=pyint(f))
            for pth in s.paths(lambda: W(**kw), p.pre + pr):
                s.raises(f"a{'n' if name[0] == 'e' else ''} {name} oversample_factor is rejected", pth, Exception)
        for m in ("foo", "", "hansers", "widefield", "hanser ", "HanserPSF"):
            kw = p.kw(m)
            for pth in s.paths(lambda: W(**kw), p.pre):
                s.raises(f"model {m!r} is rejected", pth, Exception)
    s.guard("rejections", bad)
    s.lemma("the sum over all pixels of x / sum(x) is 1")
    s.assume("the models' PSFi is used through its contract (C10 to C13): a function of the model's current parameters")
    s.assume("unknown model names: six representatives; upper and lower case spelling of the known ones")

