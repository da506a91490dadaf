"""BaseSIMMicroscope, SIM2DMicroscope, SIM3DMicroscope and LatticeSIMMicroscope (microscope)."""
from pv.contract import *
from .mic import *
from pv import symnp as np_


def contract(s):
    w = s.world()
    stub_models(w)
    mic = w.module("microscope")
    PI = T.PI if hasattr(T, "PI") else val(np_.pi)

    def fine_sim(cls, d, st, facts):
        """Element of the fine-grid PSF for the settings st."""
        N, nz = d["size"], d["zsize"]
        if st["wiener"] is None:
            psf = lambda *i: fine_elem(cls, d, *i)
        else:
            o2 = lambda *i: T.psum([x * x for x in otf_elem(cls, d, *i)])
            A = SArr(lambda i: o2(*i), (nz, N, N), DT["f"])
            mx = val(A.max()) if st["wiener"].const() != 0 else None

            def filt(i):
                if mx is None:
                    return T.b2i(lt(T.coerce(1e-16), o2(*i)))
                return o2(*i) * T.inv(o2(*i) + mx * st["wiener"] * st["wiener"])
            psf = lambda *i: cdft(True, lambda j: (filt(j), num(0)), (nz, N, N), (0, 1, 2), i)[0]
        k = 2 * PI * d["ni"] * T.inv(st["wl_exc"])
        sa = st["na_exc"] * T.inv(d["ni"])
        ca = T.sqrt(1 - sa * sa)

        def pattern(z, y, x):
            Z, Y, X = (z - T.fdiv(nz, num(2))) * d["zres"], (y - T.fdiv(N, num(2))) * d["res"], (x - T.fdiv(N, num(2))) * d["res"]

            def beams(t):
                r = X * T.cos(t) + Y * T.sin(t)
                ph = [k * (r * sa + Z * ca), k * (Z * ca - r * sa)]
                return T.psum([T.cos(p) for p in ph]), T.psum([T.sin(p) for p in ph])
            ax = (T.cos(k * Z), T.sin(k * Z)) if st["dc"] else (num(0), num(0))
            I = lambda c: c[0] * c[0] + c[1] * c[1]
            plus = lambda *cs: (T.psum([c[0] for c in cs]), T.psum([c[1] for c in cs]))
            os = st["orientations"]
            if st["coherent"]:
                return I(plus(ax, *[beams(t) for t in os]))
            r = T.psum([I(plus(ax, beams(t))) for t in os])
            if st["dc_suppress"]:
                r = r - (2 * len(os) - 1)
            return r
        return lambda *i: psf(*i) * pattern(*i)

    def settings(n, wiener, coherent, dc, dcs, tag):
        """Settings: a dict of specification values and one of Python values."""
        a = dict(na_exc=rvar("na_exc" + tag), wl_exc=rvar("wl_exc" + tag), coherent=coherent, dc=dc, dc_suppress=dcs,
                 orientations=[rvar(f"angle{tag}{i}") for i in range(n)])
        a["wiener"] = {None: None, 0: num(0), "w": rvar("wiener" + tag)}[wiener]
        return a

    def py(a):
        r = {}
        for k, v in a.items():
            if k == "orientations":
                r[k] = tuple(pyfloat(x) for x in v)
            elif isinstance(v, T.Poly):
                r[k] = pyfloat(v) if v.const() is None else int(v.const())
            else:
                r[k] = v
        return r

    def pre_of(p, a):
        r = [le(0, a["na_exc"]), le(a["na_exc"], p.ni), lt(0, a["wl_exc"])]
        if isinstance(a["wiener"], T.Poly) and a["wiener"].const() is None:
            r.append(lt(0, a["wiener"]))
        return r

    FIXED = dict(SIM2DMicroscope=dict(coherent=False, dc=False), SIM3DMicroscope=dict(coherent=False, dc=True),
                 LatticeSIMMicroscope=dict(coherent=True, dc=True), BaseSIMMicroscope={})

    def go(cname, model, q, z, more, n, wiener, coherent, dc, dcs, hist, default=False):
        s.under(f"microscope.{cname}.model_psf", f"microscope.{cname}.__init__", f"microscope.{cname}.orientations", f"microscope.{cname}.wiener",
                f"microscope.{cname}.na_exc", f"microscope.{cname}.wl_exc")
        p = MPar(q)
        cls = model.capitalize() + "PSF"
        kw = p.kw(model, z, **more)
        d = dict(p.fine(), **more)
        C = getattr(mic, cname)
        a = settings(n, wiener, coherent, dc, dcs, "0")
        b = settings(3 - n if n < 3 else 2, {None: "w", 0: None, "w": 0}[wiener], not coherent, not dc, not dcs, "1")
        lat = cname == "LatticeSIMMicroscope"
        if lat:
            a["orientations"] = [num(0), PI * num("1/2")]
        pre = p.pre + pre_of(p, a) + pre_of(p, b)
        ka = {k: v for k, v in py(a).items() if k not in FIXED[cname] and not (lat and k == "orientations")}
        st = dict(a)
        if default:
            ka["na_exc"] = ka["wl_exc"] = None
            st.update(na_exc=p.na, wl_exc=p.wl)
            pre.append(le(p.na, p.ni))
        pb = py(b)
        t = f"{cname}, {model}, oversampling {q}, {'own' if z else 'default'} z, {more}, {n} orientations, wiener {wiener}, coherent {coherent}, dc {dc}, dc_suppress {dcs}, {hist or 'new'}"
        for op in hist.split():
            if op in b:
                st[op] = b[op]

        def run():
            READ.clear()
            m = C(**kw, **ka)
            for op in hist.split():
                if op == "read":
                    m.model_psf
                else:
                    setattr(m, op, pb[op])
            r = m.model_psf
            mm = m.model
            return r, [getattr(mm, k) for k in NUMS], list(READ)
        for pth in s.paths(run, pre):
            if not s.returns(f"the PSF can be read ({t})", pth):
                continue
            r, params, read = pth.result
            for k, x in zip(NUMS, params):
                s.equal(f"the model's {k} ({t})", val(x), d[k], pth.facts)
            with ctx.at(pth.facts):
                spec = fine_sim(cls, d, st, pth.facts)
            s.array(f"fine-grid PSF ({t})", pth.facts, r, (d["zsize"], d["size"], d["size"]), spec, kind="f")
            s.unchanged(f"the model's outputs are not modified ({t})", pth.facts, *read)

    vecs = [dict(), dict(vec_corr="total", condition="herschel"), dict(vec_corr="y"), dict(condition="none")]
    k = 0

    def g(*args, **kwargs):
        s.guard(f"SIM {args} {kwargs}", lambda: go(*args, **kwargs))
    W = (None, 0, "w")
    for cname in FIXED:
        f = FIXED[cname]
        for coherent in (False, True) if "coherent" not in f else (f["coherent"],):
            for dc in (False, True) if "dc" not in f else (f["dc"],):
                for dcs in (False, True):
                    for wiener in W:
                        n = 2 if cname == "LatticeSIMMicroscope" else 1 + k % 4
                        g(cname, ("hanser", "sheppard")[k % 2], (1, 3)[k // 2 % 2], k // 4 % 2 == 0, vecs[k % 4], n, wiener, coherent, dc, dcs, "",
                          default=k % 3 == 0)
                        k += 1
    hists = ["read na_exc", "read wl_exc", "read orientations", "read wiener", "read dc_suppress", "read coherent", "read dc",
             "na_exc wl_exc", "wiener orientations", "read na_exc read wl_exc orientations wiener dc_suppress"]
    for hist in hists:
        for cname in FIXED:
            f = FIXED[cname]
            for wiener in W if "wiener" in hist else (W[k % 3],):
                n = 2 if cname == "LatticeSIMMicroscope" else 1 + k % 3
                g(cname, ("hanser", "sheppard")[k % 2], 1, k // 4 % 2 == 0, vecs[k % 4], n, wiener, f.get("coherent", k % 5 < 2),
                  f.get("dc", k % 3 == 1), k % 7 < 3, hist)
                k += 1

    # PSF and OTF of the camera grid follow every assignment
    def image(cname, q, z, parity, hist, wiener):
        s.under(f"microscope.{cname}.PSF", f"microscope.{cname}.OTF", "microscope.WidefieldMicroscope._attribute_changed")
        C = getattr(mic, cname)
        f = FIXED[cname]
        lat = cname == "LatticeSIMMicroscope"
        p = MPar(q, 2 * ivar("k") + parity)
        kw = p.kw("hanser", z)
        d = p.fine()
        a = settings(2, wiener, f.get("coherent", False), f.get("dc", False), False, "0")
        b = settings(3, {None: "w", 0: None, "w": 0}[wiener], not a["coherent"], not a["dc"], True, "1")
        if lat:
            a["orientations"] = [num(0), PI * num("1/2")]

        def key(st):
            return tuple(repr(st[k]) if not isinstance(st[k], T.Poly) else st[k] for k in ("wiener", "coherent", "dc", "dc_suppress")) + \
                (st["na_exc"], st["wl_exc"]) + tuple(st["orientations"])

        def current(m):
            st = {k: getattr(m, k) for k in ("wiener", "coherent", "dc", "dc_suppress", "na_exc", "wl_exc", "orientations")}
            st["orientations"] = [pnum(x) for x in st["orientations"]]
            for x in ("wiener", "na_exc", "wl_exc"):
                st[x] = st[x] if st[x] is None else pnum(st[x])
            return key(st)
        stub = Stub(C, current)
        pb = py(b)
        st = dict(a)
        for op in hist.split():
            if op in b:
                st[op] = b[op]
        t = f"{cname}, oversampling {q}, {'own' if z else 'default'} z, size {('even', 'odd')[parity]}, wiener {wiener}, {hist}"
        ka = {k: v for k, v in py(a).items() if k not in f and not (lat and k == "orientations")}

        def run():
            stub.read.clear()
            m = stub.cls(**kw, **ka)
            o = None
            for op in hist.split():
                if op == "psf":
                    m.PSF
                elif op == "otf":
                    o = m.OTF
                else:
                    setattr(m, op, pb[op])
                    o = None
            r = m.PSF
            return r, m.OTF, list(stub.read)
        for pth in s.paths(run, p.pre + pre_of(p, a) + pre_of(p, b)):
            if not s.returns(f"PSF and OTF can be read ({t})", pth):
                continue
            r, o, read = pth.result
            check_image(s, f"follows from the fine-grid PSF of the current settings ({t})", pth.facts, r, o, p, d, lambda *i: stub.elem(key(st), *i))
            s.unchanged(f"the fine-grid PSF is not modified ({t})", pth.facts, *read)
    k = 0
    for cname in FIXED:
        for hist in ("", "psf na_exc", "psf wl_exc", "psf orientations", "psf wiener", "psf dc_suppress", "psf coherent", "psf dc",
                     "otf wl_exc otf", "otf orientations otf", "psf otf wiener psf na_exc otf", "na_exc psf wl_exc psf orientations psf wiener"):
            s.guard(f"PSF ({cname}, {hist})",
                    lambda: image(cname, (1, 3)[k % 2], k % 3 == 0, k // 2 % 2, hist, W[k % 3] if "wiener" in hist else "w"))
            k += 1

    def bad():
        p = MPar(1)
        x = rvar("x")
        kw = p.kw("hanser")
        for cname in FIXED:
            s.under(f"microscope.{cname}.wiener")
            C = getattr(mic, cname)
            a = settings(2, "w", True, True, False, "0")
            ka = {k: v for k, v in py(a).items() if k not in FIXED[cname] and not (cname[0] == "L" and k == "orientations")}
            pre = p.pre + pre_of(p, a) + [lt(x, 0)]
            for pth in s.paths(lambda: C(**kw, **dict(ka, wiener=pyfloat(x))), pre):
                s.raises(f"{cname} rejects a negative wiener parameter", pth, ValueError)

            def assign():
                m = C(**kw, **ka)
                try:
                    m.wiener = pyfloat(x)
                except ValueError:
                    return m.wiener
                return None
            for pth in s.paths(assign, pre):
                if s.returns(f"{cname}: a negative wiener parameter can be assigned in vain", pth):
                    ok = pth.result is not None
                    s.add(f"{cname} rejects the assignment of a negative wiener parameter", "proved" if ok else s.reached(pth))
                    if ok:
                        s.equal(f"{cname}: wiener reads as before the rejected assignment", val(pth.result), a["wiener"], pth.facts)
    s.guard("rejections", bad)
    s.assume("the models' PSFi and OTFi are used through their contracts (C10 to C13): functions of the model's current parameters")
    s.assume("the loop over the orientations is unrolled: 1 to 4 orientations, every angle symbolic")
