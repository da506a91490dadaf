"""Intensity PSF and OTF of both models (otf)."""
from pv.contract import *
from .optics import *
from .c03 import cdft

NAMES = ("PSFa", "PSFi", "OTFa", "OTFi")
ORDERS = (("PSFa", "PSFi", "OTFa", "OTFi"), ("OTFi", "OTFa", "PSFi", "PSFa"), ("OTFa", "PSFi", "PSFa", "OTFi"))


def contract(s):
    w = s.world()
    otf = w.module("otf")

    def model(cls, p, kw, pupil, vec, cond):
        m = getattr(otf, cls)(vec_corr=vec, condition=cond, **p.kw(**kw))
        if pupil is not None:
            m.apply_pupil(pupil)
        return m

    def one(cls, vec, cond, tag, order, dual=False):
        s.under(f"otf.{cls}.PSFi", "otf.BasePSF.PSFi", "otf.BasePSF.OTFi", f"otf.{cls}.OTFa", f"otf.{cls}.PSFa")
        p = Par()
        kw, pre, nz = p.kz(), p.pre + p.prez, p.nz
        pupil = None
        if cls == "SheppardPSF":
            pre = pre + [lt(2 * p.zres * p.ni, p.wl), le(3, p.n), le(3, p.nz)]
            if dual:
                kw["dual"] = True
        elif tag == "zrange":
            nz = ivar("m")
            kw, pre = dict(zrange=inarr("zrange", (nz,))), p.pre + [le(1, nz)]
        elif tag == "pupil":
            pupil = inarr("pupil", (p.n, p.n), "c")
        t = f"{cls}, {vec}, {cond}, {tag}, reading {'/'.join(order)}"
        nc = NCOMP[vec]

        def run():
            m = model(cls, p, kw, pupil, vec, cond)
            got = {k: getattr(m, k) for k in order}
            return tuple(got[k] for k in NAMES)
        for q in s.paths(run, pre):
            if not s.returns(f"outputs can be read ({t})", q):
                continue
            pa, pi, oa, oi = q.result
            full = (num(nc), nz, p.n, p.n)
            s.array(f"PSFa shape ({t})", q.facts, pa, full, lambda *i: pa.get(i))

            def inten(i):
                r = num(0)
                for c in range(nc):
                    e = pa.get((num(c),) + tuple(i))
                    r = r + e[0] * e[0] + e[1] * e[1]
                return r
            s.array(f"PSFi is the summed squared modulus ({t})", q.facts, pi, full[1:], lambda *i: inten(i), kind="f")
            s.array(f"OTFi is the centred transform of PSFi ({t})", q.facts, oi, full[1:],
                    lambda *i: cdft(False, lambda j: (pi.get(j), num(0)), full[1:], (0, 1, 2), i), kind="c")
            if cls == "HanserPSF":
                s.array(f"OTFa is the centred transform of PSFa ({t})", q.facts, oa, full,
                        lambda *i: cdft(False, lambda j: pa.get(j), full, (1, 2, 3), i), kind="c")
            else:
                s.array(f"PSFa is the centred inverse transform of OTFa ({t})", q.facts, pa, full,
                        lambda *i: cdft(True, lambda j: oa.get(j), full, (1, 2, 3), i), kind="c")

    def nonneg():
        s.under("otf.BasePSF.PSFi")
        # a sum of squares: shown for arbitrary amplitudes
        for nc in (1, 2, 6):
            shape = (num(nc), ivar("nz"), ivar("n"), ivar("n"))
            A = inarr("PSFa", shape, "c")

            def run():
                m = object.__new__(otf.HanserPSF)
                m.__dict__["PSFa"] = A
                return m.PSFi
            for q in s.paths(run, [le(1, x) for x in shape]):
                if s.returns(f"PSFi of any amplitudes ({nc})", q):
                    i = [ivar(f"i{d}") for d in range(3)]
                    f = P.Facts(q.facts.bs + [le(0, v) for v in i] + [lt(v, x) for v, x in zip(i, shape[1:])])
                    with ctx.at(f):
                        e = q.result.get(i)
                    s.prove(f"PSFi is never negative ({nc} components)", le(0, e), f)

    def total(cls, cond, tag):
        s.under(f"otf.{cls}.PSFi", "otf.BasePSF.PSFi")
        p = Par()
        kw, pre, nz = p.kz(), p.pre + p.prez, p.nz
        pupil = None
        if cls == "SheppardPSF":
            pre = pre + [lt(2 * p.zres * p.ni, p.wl), le(3, p.n), le(3, p.nz)]
            if tag == "dual":
                kw["dual"] = True
        elif tag == "pupil":
            pupil = inarr("pupil", (p.n, p.n), "c")

        def run():
            return [model(cls, p, kw, pupil, v, cond).PSFi for v in ("total", "x", "y", "z")]
        for q in s.paths(run, pre):
            if s.returns(f"four models ({cls}, {cond}, {tag})", q):
                tot, x, y, z = q.result
                s.array(f"total is x + y + z ({cls}, {cond}, {tag})", q.facts, tot, (nz, p.n, p.n),
                        lambda *i: x.get(i) + y.get(i) + z.get(i))

    k = 0
    for cls in ("HanserPSF", "SheppardPSF"):
        for vec in VEC:
            for cond in COND:
                tags = ("default", "zrange", "pupil") if cls[0] == "H" else ("single", "dual")
                tag = tags[k % len(tags)]
                s.guard(f"{cls}, {vec}, {cond}", lambda: one(cls, vec, cond, tag, ORDERS[k % 3], tag == "dual"))
                k += 1
        k += 1
        for cond in COND:
            for tag in ("default", "pupil") if cls[0] == "H" else ("single", "dual"):
                s.guard(f"total, {cls}, {cond}, {tag}", lambda: total(cls, cond, tag))
    s.guard("PSFi is never negative", nonneg)
