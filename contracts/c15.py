"""Aberrations (otf): apply_aberration and the named ones, with zernike used through its contract (C02, C23)."""
import itertools
from pv.contract import *
from .optics import *

NAMES = ["piston", "tip", "tilt", "defocus", "oblique astigmatism", "vertical astigmatism", "vertical coma",
         "horizontal coma", "vertical trefoil", "oblique trefoil", "primary spherical", "vertical secondary astigmatism",
         "oblique secondary astigmatism", "vertical quadrafoil", "oblique quadrafoil"]
PARAMS = ("wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition")


def noll(j, r, t, norm=True):
    return T.app("noll" if norm else "noll.plain", (T.coerce(j), r, t), "R")


def zernike_stub(r, theta, *args, **kw):
    """zernike by its contract: an unknown function of index, radius and angle; axes of length one are squeezed."""
    norm = kw.pop("norm", True)
    if kw or len(args) != 1 or not isinstance(norm, bool):
        raise Unsupported("zernike with degrees")
    r, t = sym.asarr(r), sym.asarr(theta)
    j = args[0]
    if isinstance(j, (int, S)):
        js = sym.asarr([j])
    else:
        js = sym.asarr(j)
    if js.ndim != 1 or js.dtype.kind not in "iu":
        raise Unsupported("zernike of other indices")
    if r.ndim != t.ndim or any(not sym.same_size(a, b) for a, b in zip(r._shape, t._shape)):
        raise Unsupported("zernike with broadcasting")
    fr, ft, fj = r.snap(), t.snap(), js.snap()

    def el(idx):
        return noll(sym.to_num(fj(tuple(idx[:1]))), sym.to_num(fr(tuple(idx[1:]))), sym.to_num(ft(tuple(idx[1:]))), norm)
    return symnp.squeeze(SArr(el, js._shape + r._shape, DT["f"]))


def stub_zernike(w):
    for m in ("zernike", "otf", "phaseretrieval"):
        mod = w.module(m)
        if hasattr(mod, "zernike"):
            mod.zernike = zernike_stub


def contract(s):
    w = s.world()
    o = w.module("otf")
    stub_zernike(w)
    P_ = Par()
    M = ivar("m")
    FN = ("otf.apply_aberration", "otf.apply_named_aberration", "otf.apply_named_aberrations", "otf.named_aberration_to_pcoefs")

    def polar(u, v):
        ky, kx = freq(u, P_.n, P_.res), freq(v, P_.n, P_.res)
        kr = T.sqrt(kx * kx + ky * ky)
        return kr, T.atan2(ky, kx)

    def mode(j, u, v):
        kr, t = polar(u, v)
        return noll(j, kr * P_.wl * T.inv(P_.na), t)

    def spec_pupil(mag, phase):
        """mag(u, v), phase(u, v): what is added to the disk, and the phase."""
        def el(idx):
            u, v = idx
            kr, _ = polar(u, v)
            a = ite(lt(kr, P_.na * T.inv(P_.wl)), num(1), num(0)) + mag(u, v)
            ph = phase(u, v)
            return (a * T.cos(ph), a * T.sin(ph))
        r = SArr(el, (P_.n, P_.n), DT["c"])
        r.orig = el
        return r

    def compare(t, p, result, mag, phase, prior, vec, cond):
        new, old, psfa, before, after = result
        if not s.add(f"a new model is returned ({t})", "proved" if new is not old and isinstance(new, o.HanserPSF) else "refuted", new):
            return
        for who, m, b in (("original", old, before), ("copy", new, before)):
            for k in PARAMS:
                a = after[who][k]
                if isinstance(b[k], str) or isinstance(a, str):
                    s.add(f"{k} of the {who} ({t})", "proved" if a == b[k] else "refuted", a)
                else:
                    s.equal(f"{k} of the {who} ({t})", sym.to_num(val(a)), sym.to_num(val(b[k])), p.facts)
            z, z0 = after[who]["zrange"], before["zrange"]
            s.array(f"zrange of the {who} ({t})", p.facts, z, z0._shape, lambda i: z0.get([i]))
        ref, ref0 = psfa["spec"], psfa["original"]
        s.array(f"PSFa of the copy ({t})", p.facts, psfa["copy"], ref._shape, lambda *i: ref.get(list(i)))
        if psfa["after"] is not None:
            s.array(f"PSFa of the original ({t})", p.facts, psfa["after"], ref0._shape, lambda *i: ref0.get(list(i)))

    def go(t, call, mag, phase, arrays, pre, vec="none", cond="sine", prior="none"):
        """Runs call(model) and compares with a model to which the specified pupil is applied."""
        s.under(*FN)
        t = f"{t}, {vec}, {cond}, {prior} before"
        pe = elem("prior", "c")
        pupil0 = SArr(lambda i: pe(*i), (P_.n, P_.n), DT["c"])

        def make(with_pupil=True):
            m = o.HanserPSF(vec_corr=vec, condition=cond, **P_.kw(**P_.kz()))
            if prior == "pupil" and with_pupil:
                m.apply_pupil(pupil0)
            return m

        def pars(m):
            d = {k: getattr(m, k) for k in PARAMS}
            d["zrange"] = m.zrange
            return d

        def run():
            m = make()
            if prior == "read":
                m.PSFa, m.PSFi, m.OTFi
            before = pars(m)
            before["zrange"] = before["zrange"].copy()
            new = call(m)
            after = dict(original=pars(m), copy=pars(new))
            psfa = dict(copy=new.PSFa, after=m.PSFa, original=make().PSFa)
            ref = make(False)
            if mag is not None:
                ref.apply_pupil(spec_pupil(mag, phase))
            psfa["spec"] = ref.PSFa
            return new, m, psfa, before, after
        for p in s.paths(run, P_.pre + P_.prez + pre):
            if s.returns(f"returns ({t})", p):
                compare(t, p, p.result, mag, phase, prior, vec, cond)
                if arrays:
                    s.unchanged(f"the coefficients are not modified ({t})", p.facts, *arrays)

    zero = lambda u, v: num(0)

    def coefs(which, kind, vec, cond, prior):
        mc, pc = inarr("mcoefs", (M,), kind), inarr("pcoefs", (M,), kind)
        em, ep = elem("mcoefs", kind), elem("pcoefs", kind)
        S_ = lambda e: lambda u, v: T.ssum([M], lambda i: e(i[0]) * mode(i[0] + 1, u, v))
        a = mc if which in ("both", "mag") else None
        b = pc if which in ("both", "phase") else None
        go(f"{which}, {kind}", lambda m: o.apply_aberration(m, a, b), S_(em) if a is not None else zero, S_(ep) if b is not None else zero,
           [x for x in (a, b) if x is not None], [le(1, M)], vec, cond, prior)

    for which in ("both", "mag", "phase"):
        for vec, cond in (("none", "none"), ("none", "sine"), ("total", "herschel"), ("x", "sine")):
            for prior in ("none", "read", "pupil"):
                if prior != "none" and vec != "none":
                    continue
                s.guard(f"coefficients ({which}, {vec}, {cond}, {prior})", lambda: coefs(which, "f", vec, cond, prior))
        s.guard(f"integer coefficients ({which})", lambda: coefs(which, "i", "none", "sine", "none"))
    for prior in ("none", "read"):
        s.guard(f"no coefficients ({prior})", lambda: go("no coefficients", lambda m: o.apply_aberration(m, None, None), zero, zero, [], [], prior=prior))

    def named(names):
        V = [rvar(f"magnitude{k}") for k in range(len(names))]
        phase = lambda u, v: T.psum([x * mode(NAMES.index(n) + 1, u, v) for n, x in zip(names, V)])
        d = {n: pyfloat(x) for n, x in zip(names, V)}
        if len(names) == 1:
            go(f"{names[0]} alone", lambda m: o.apply_named_aberration(m, names[0], d[names[0]]), zero, phase, [], [])
            iv = ivar("imag")
            go(f"{names[0]}, integer magnitude", lambda m: o.apply_named_aberration(m, names[0], pyint(iv)), zero,
               lambda u, v: iv * mode(NAMES.index(names[0]) + 1, u, v), [], [])

        def several(m):
            e = dict(d)
            r = o.apply_named_aberrations(m, e)
            if list(e) != list(d) or any(e[k] is not d[k] for k in d):
                raise Unsupported("the dictionary was modified")
            return r
        go("+".join(names)[:60], several, zero, phase, [], [])

    for n in NAMES:
        s.guard(f"named: {n}", lambda: named([n]))
    for c in (NAMES[3:5], NAMES[4:2:-1], NAMES[10:7:-1], NAMES[12:], [NAMES[14], NAMES[0]], NAMES[1:8:2], NAMES[::-1], NAMES):
        s.guard(f"several: {len(c)}, {c[0]}", lambda: named(c))
    s.guard("several: none", lambda: go("an empty dictionary", lambda m: o.apply_named_aberrations(m, {}), zero, zero, [], []))

    def coefvec():
        s.under("otf.named_aberration_to_pcoefs")
        x = rvar("magnitude")
        for k, n in enumerate(NAMES):
            for p in s.paths(lambda: o.named_aberration_to_pcoefs(n, pyfloat(x))):
                if s.returns(f"coefficients of {n}", p):
                    s.array(f"coefficients of {n}", p.facts, p.result, (num(15),), lambda i: ite(eq(i, num(k)), x, num(0)))
    s.guard("coefficients of the names", coefvec)

    def unknown():
        s.under(*FN)
        x = pyfloat(rvar("magnitude"))
        for n in ("foo", "", "Piston", "coma", "astigmatism", "tip ", "piston,tip", "spherical", "trefoil", 3, None, ("tip",)):
            for t, call in (("alone", lambda m: o.apply_named_aberration(m, n, x)), ("first", lambda m: o.apply_named_aberrations(m, {n: x, "tip": x})),
                            ("last", lambda m: o.apply_named_aberrations(m, {"tip": x, n: x})), ("coefficients", lambda m: o.named_aberration_to_pcoefs(n, x))):
                for p in s.paths(lambda: call(o.HanserPSF(**P_.kw(**P_.kz()))), P_.pre + P_.prez):
                    s.raises(f"{n!r} is rejected ({t})", p, KeyError)
    s.guard("unknown names", unknown)
    s.assume("unknown names are twelve representatives")
    s.lemma("zernike(r, theta, indices) holds, for each index in order, an unknown function of index, r and theta, axes of length one squeezed (C02, C23)")
