"""HanserPSF: amplitude PSF (otf)."""
from pv.contract import *
from .optics import *


def contract(s):
    w = s.world()
    H = w.module("otf").HanserPSF
    P_ = Par()
    m = ivar("m")

    def variants():
        zr = elem("zrange")
        zi = elem("zints", "i")
        v = [rvar(f"z{k}") for k in range(3)]
        mid = T.fdiv(P_.nz, num(2))
        yield "default zrange", P_.kz(), P_.prez, P_.nz, lambda k: (k - mid) * P_.zres
        yield "zrange array", dict(zrange=inarr("zrange", (m,))), [le(1, m)], m, lambda k: zr(k)
        yield "integer zrange array", dict(zrange=inarr("zints", (m,), "i")), [le(1, m)], m, lambda k: zi(k)
        yield "zrange list", dict(zrange=[pyfloat(x) for x in v]), [], num(3), lambda k: pick(k, v)
        yield "scalar zrange", dict(zrange=pyfloat(v[0])), [], num(1), lambda k: v[0]
        yield "no zres or zsize", {}, [], P_.n, lambda k: (k - T.fdiv(P_.n, num(2))) * P_.res

    def go(tag, kw, pre, nz, zat, vec, cond, pupil):
        s.under("otf.HanserPSF._gen_psf", "otf.HanserPSF._gen_kr", "otf.HanserPSF._gen_pupil", "otf.HanserPSF._calc_defocus",
                "otf.HanserPSF.apply_pupil", "otf.HanserPSF.PSFa", "otf.HanserPSF._gen_zrange")
        t = f"{tag}, {vec}, {cond}, pupil {pupil}"
        pf, arr = None, None
        if pupil != "disk":
            pe = elem("pupil", "c" if pupil == "complex" else "f")

            def pf(u, v):
                e = pe(u, v)
                return e if isinstance(e, tuple) else (e, num(0))
            # the property leaves what a pupil does at and beyond the sphere open

            def el(idx):
                u, v = idx
                ky, kx = freq(u, P_.n, P_.res), freq(v, P_.n, P_.res)
                inside = lt(T.sqrt(kx * kx + ky * ky), P_.ni * T.inv(P_.wl))
                e = pf(u, v)
                r = (ite(inside, e[0], num(0)), ite(inside, e[1], num(0)))
                return r if pupil == "complex" else r[0]
            arr = SArr(el, (P_.n, P_.n), DT["c" if pupil == "complex" else "f"])
            arr.orig = el

        def run():
            psf = H(vec_corr=vec, condition=cond, **P_.kw(**kw))
            if arr is not None:
                psf.apply_pupil(arr)
            return psf.PSFa
        for p in s.paths(run, P_.pre + pre):
            if s.returns(f"PSFa can be read ({t})", p):
                s.array(f"PSFa ({t})", p.facts, p.result, (num(NCOMP[vec]), nz, P_.n, P_.n), hanser_psfa(P_, pf, vec, cond, zat))
                if arr is not None:
                    s.unchanged(f"the pupil is not modified ({t})", p.facts, arr)

    for i, (tag, kw, pre, nz, zat) in enumerate(variants()):
        for vec in VEC:
            for cond in COND:
                for pupil in ("disk", "complex", "real"):
                    if pupil == "real" and i > 0 or (i > 1 and pupil != "disk") or (i > 1 and (vec, cond) not in (("none", "sine"), ("total", "herschel"), ("z", "none"))):
                        continue
                    s.guard(f"PSFa ({tag}, {vec}, {cond}, {pupil})", lambda: go(tag, kw, pre, nz, zat, vec, cond, pupil))
