"""display: psf_plot, otf_plot, max_min, fft_max_min, and the plot methods of models and microscopes.

matplotlib is a recorder: drawing has no effect but the note of what was asked for, and the contract reads the notes off the figure
the function returns.  The plot methods are verified against the contract of the two plot functions, which stand for themselves."""
import inspect
from pv.contract import *
from pv import mpl
from .optics import Par
from .mic import stub_models, MPar, pnum

TITLES = {"$XY$": "XY", "$YZ$": "YZ", "$XZ$": "XZ", "$k_{XY}$": "XY", "$k_{YZ}$": "YZ", "$k_{XZ}$": "XZ"}
VIEW = {"XY": (1, 2, 0), "YZ": (1, 0, 2), "XZ": (0, 2, 1)}      # title -> (vertical, horizontal, projected) axis
QUIET = {"set_title", "axis", "set_xticks", "set_yticks", "set_xticklabels", "set_yticklabels", "tick_params", "set_axis_off", "imshow",
         "add_patch", "set_xlabel", "set_ylabel", "get_title", "set_facecolor", "grid", "text", "annotate"}
ARGS = ("X", "cmap", "norm")


def ends(n, d):
    h = T.fdiv(n, num(2))
    return [-(h * d), (n - 1 - h) * d]


def title(ax):
    t = None
    for name, a, k, r in ax.calls:
        if name == "set_title":
            t = a[0] if a else k.get("label", k.get("s"))
        elif name == "set" and "title" in k:
            t = k["title"]
        elif name not in QUIET:
            raise Unsupported(f"{name} of a panel")
    return t


def imshow(ax):
    r = [(dict(zip(ARGS, a), **k), o) for name, a, k, o in ax.calls if name == "imshow"]
    if any(o.calls for _, o in r):
        raise Unsupported("an image that is changed after it was drawn")
    return [k for k, _ in r]


def option(kw, name, pos=()):
    """A display option as the image will have it."""
    n = kw.get("norm")
    if isinstance(n, mpl.Obj) and name in ("vmin", "vmax", "gamma"):
        order = ("gamma", "vmin", "vmax") if n._kind == "PowerNorm" else ("vmin", "vmax")
        d = dict(zip(order, n.args), **n.kw)
        return d.get(name)
    return kw.get(name)


class Fn:
    """psf_plot or otf_plot standing for themselves: note the arguments."""

    def __init__(self, fn, name):
        self.sig, self.calls, self.name = inspect.signature(fn), [], name

    def __call__(self, *a, **k):
        b = self.sig.bind(*a, **k)
        d = dict(b.arguments)
        d.update(d.pop("kwargs", {}))
        self.calls.append(d)
        self.out = (mpl.Obj(None, "Figure"), mpl.Obj(None, "Grid"))
        return self.out


def contract(s):
    w = s.world()
    display = w.module("display")
    N = [ivar("nz"), ivar("ny"), ivar("nx")]

    def same(name, a, b):
        """Two option values are the same."""
        if isinstance(b, S):
            if not isinstance(a, S):
                a = sym.lift(a) if a is not None else None
            if a is None:
                return s.add(name, "refuted", "not passed on")
            return s.prove(name, eq(pnum(a), pnum(b)), P.Facts([], []))
        return s.add(name, "proved" if a is b or type(a) == type(b) and not isinstance(a, (mpl.Obj, SArr)) and a == b else "refuted", f"{a!r} for {b!r}")

    def figure(t, facts, r, given, N, shows, steps, opts, gamma):
        ok = s.add(f"a figure and its panels ({t})", "proved" if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], mpl.Grid)
                   else "unsupported", r)
        if not ok:
            return None
        s.add(f"draws in the figure that was given ({t})", "proved" if given is None or r[0] is given else "refuted")
        s.add(f"the panels are in that figure ({t})", "proved" if (r[1].args or (None,))[0] is r[0] or r[1].kw.get("fig") is r[0] else "unsupported")
        pan = {}
        for ax in r[1]:
            ti = title(ax)
            if ti is None or ti == "":
                if imshow(ax):
                    s.add(f"no picture without a title ({t})", "refuted")
                continue
            if not s.add(f"the title {ti} names a view ({t})", "proved" if isinstance(ti, str) and ti in TITLES and TITLES[ti] not in pan else "refuted", ti):
                continue
            pan[TITLES[ti]] = ax
        if not s.add(f"three panels ({t})", "proved" if set(pan) == set(VIEW) else "refuted", list(pan)):
            return None
        for name, (v, h, p) in VIEW.items():
            ims = imshow(pan[name])
            if len(ims) != 1:
                s.add(f"one image in {name} ({t})", "unsupported", len(ims))
                continue
            k = ims[0]
            img = shows(p)      # its axes are the two others in order

            def spec(*i, img=img, flip=v > h):
                return img.get(i[::-1] if flip else i)
            s.array(f"{name} shows its view ({t})", facts, k["X"], (N[v], N[h]), spec)
            e = k.get("extent")
            if not s.add(f"{name} has an extent ({t})", "proved" if isinstance(e, (tuple, list)) and len(e) == 4 else
                         "refuted" if e is None else "unsupported", e):
                continue
            for q, a, b in zip(("left", "right", "bottom", "top"), e, ends(N[h], steps[h]) + ends(N[v], steps[v])):
                s.prove(f"{name}: {q} end ({t})", eq(pnum(a), b), facts)
            o = k.get("origin")
            if o is not None and o != "upper":
                s.add(f"{name}: origin ({t})", "unsupported", o)
            for q in ("aspect",):
                if q in k and q not in opts:
                    s.add(f"{name}: {q} ({t})", "unsupported", k[q])
            for q, x in opts.items():
                same(f"{name}: option {q} is passed on ({t})", option(k, q), x)
            if "interpolation" not in opts:
                same(f"{name}: samples are shown as squares ({t})", option(k, "interpolation"), "nearest")
            if gamma and "gamma" not in opts and "norm" not in opts:
                g = option(k, "gamma")
                s.prove(f"{name}: gamma is 1/2 ({t})", eq(pnum(g), num(1) * T.inv(num(2))), facts)
        return pan

    R = lambda k: pyfloat(rvar(k))
    OPTS = [lambda: {}, lambda: dict(cmap="gray"), lambda: dict(interpolation="bicubic", gamma=R("gamma")),
            lambda: dict(vmin=R("vmin"), vmax=R("vmax")), lambda: dict(vmin=R("vmin"), gamma=R("gamma"), alpha=R("alpha")),
            lambda: dict(vmax=R("vmax"), cmap="magma"), lambda: dict(norm=mpl.Obj(w.rec, "Norm"))]

    def psf(mip, oi, fig, kind, pykind="S"):
        s.under("display.psf_plot", "display.max_min")
        t = f"psf_plot, mip={mip}, {', '.join(OPTS[oi]()) or 'no options'}, {'a figure given' if fig else 'new figure'}, {kind}"
        zres, res = rvar("zres"), rvar("res")
        A = inarr("psf", N, kind)
        given = mpl.Obj(w.rec, "Figure") if fig else None
        opts = OPTS[oi]()

        def call():
            a = dict(opts)
            if mip is not None:
                a["mip"] = mip
            if fig:
                a["fig"] = given
            return display.psf_plot(A, zres=pyfloat(zres), res=pyfloat(res), **a)
        for q in s.paths(call, [le(1, n) for n in N] + [lt(0, zres), lt(0, res), lt(0, rvar("gamma"))]):
            if not s.returns(f"draws ({t})", q):
                continue

            def shows(p):
                if mip in (None, True, 1):
                    return sym.reduce_max(inarr("psf", N, kind), p, "max")
                return sym.SArr(lambda i: A.orig(tuple(i[:p]) + (T.fdiv(N[p], num(2)),) + tuple(i[p:])), [x for d, x in enumerate(N) if d != p], A.dtype)
            with ctx.at(q.facts):
                figure(t, q.facts, q.result, given, N, shows, (zres, res, res), opts, True)
            s.unchanged(f"the data are not modified ({t})", q.facts, A)

    def otf(oi, fig):
        s.under("display.otf_plot", "display.fft_max_min", "display.max_min")
        t = f"otf_plot, {', '.join(OPTS[oi]()) or 'no options'}, {'a figure given' if fig else 'new figure'}"
        zres, res, na, ni, wl = (rvar(k) for k in ("zres", "res", "na", "ni", "wl"))
        M = [N[0], N[1], N[1]]
        A = inarr("otf", M)
        given = mpl.Obj(w.rec, "Figure") if fig else None
        opts = OPTS[oi]()

        def call():
            a = dict(opts)
            if fig:
                a["fig"] = given
            return display.otf_plot(A, zres=pyfloat(zres), res=pyfloat(res), na=pyfloat(na), ni=pyfloat(ni), wl=pyfloat(wl), **a)
        for q in s.paths(call, [le(1, n) for n in M] + [lt(0, v) for v in (zres, res, na, ni, wl)] + [le(na, ni)]):
            if not s.returns(f"draws ({t})", q):
                continue

            def shows(p):
                return sym.SArr(lambda i: A.orig(tuple(i[:p]) + (T.fdiv(M[p], num(2)),) + tuple(i[p:])), [x for d, x in enumerate(M) if d != p], A.dtype)
            with ctx.at(q.facts):
                pan = figure(t, q.facts, q.result, given, M, shows, [T.inv(n * d) for n, d in zip(M, (zres, res, res))], opts, False)
                if pan is not None:
                    cs = [a[0] for name, a, k, r in pan["XY"].calls if name == "add_patch" and getattr(a[0], "_kind", "") == "Circle"]
                    if s.add(f"one aperture circle ({t})", "proved" if len(cs) == 1 else "unsupported", len(cs)):
                        d = dict(zip(("xy", "radius"), cs[0].args), **cs[0].kw)
                        s.prove(f"radius of the aperture ({t})", eq(pnum(d["radius"]), 2 * na * T.inv(wl)), q.facts)
                        for k in (0, 1):
                            s.prove(f"centre {k} of the aperture ({t})", eq(pnum(d["xy"][k]), num(0)), q.facts)
            s.unchanged(f"the data are not modified ({t})", q.facts, A)

    def numbers(kind):
        s.under("display.max_min", "display.fft_max_min")
        n = ivar("n")
        d = rvar("d") if kind == "f" else ivar("d")
        pd = pyfloat(d) if kind == "f" else pyint(d)
        for name, fn, e in (("max_min", display.max_min, ends(n, d)), ("fft_max_min", display.fft_max_min, ends(n, T.inv(n * d)))):
            for q in s.paths(lambda: fn(pyint(n), pd), [le(1, n), lt(0, d)]):
                if s.returns(f"{name} returns ({kind})", q):
                    lo, hi = q.result
                    s.prove(f"{name}: first coordinate ({kind})", eq(pnum(lo), e[0]), q.facts)
                    s.prove(f"{name}: last coordinate ({kind})", eq(pnum(hi), e[1]), q.facts)
        s.lemma("coordinate of sample k with the origin at sample n//2 and step d: (k - n//2) d")

    # -- the plot methods
    def methods(kind, cls, which, oi):
        u = s.world()
        dm = u.module("display")
        real = {k: getattr(dm, k) for k in ("psf_plot", "otf_plot")}
        fn = {}
        for k in real:
            fn[k] = Fn(real[k], k)
            setattr(dm, k, fn[k])
        mod = stub_models(u)
        mic = u.module("microscope")
        opts = [dict(), dict(cmap="gray", mip=False), dict(vmin=R("vmin"), vmax=R("vmax")), dict(fig=mpl.Obj(u.rec, "Figure"), loc=221)][oi]
        if which == "otf":
            opts.pop("mip", None)
        t = f"{cls}.plot_{which}, {', '.join(opts) or 'no options'}"
        s.under(f"otf.BasePSF.plot_{which}" if kind == "model" else f"microscope.WidefieldMicroscope.plot_{which}")
        if kind == "model":
            p = Par()
            pre = p.pre + p.prez + [le(3, p.nz), le(3, p.n)]
            if cls == "SheppardPSF":
                pre = pre + [lt(2 * p.zres * p.ni, p.wl)]
            sh = [p.nz, p.n, p.n]
            steps = (p.zres, p.res, p.res)
            wl, na, ni = p.wl, p.na, p.ni
            mk = lambda: getattr(mod, cls)(**p.kw(**p.kz()))
        else:
            p = MPar(num(1))
            pre = p.pre
            sh = [p.nz if oi % 2 else p.n, p.n, p.n]
            steps = (p.zres if oi % 2 else p.px, p.px, p.px)
            wl, na, ni = p.wl, p.na, p.ni
            mk = lambda: mic.WidefieldMicroscope(**p.kw(cls.split()[-1], z=bool(oi % 2)))

        def call():
            fn["psf_plot"].calls.clear()
            fn["otf_plot"].calls.clear()
            m = mk()
            r = getattr(m, "plot_" + which)(**opts)
            cs = [list(f.calls) for f in fn.values()]
            src = (m.PSFi if which == "psf" else m.OTFi) if kind == "model" else (m.PSF if which == "psf" else m.OTF)
            crop = None
            if which == "psf":
                loc = symnp.unravel_index(src.argmax(), src.shape)
                crop = [pnum(x) for x in loc]
            else:
                a = symnp.absolute(src)
                crop = symnp.fmax(a / a.max(), symnp.NP.finfo(float).eps)
            return cs, r, fn[which + "_plot"].out if fn[which + "_plot"].calls else None, src, crop
        for q in s.paths(call, pre):
            if not s.returns(f"draws ({t})", q):
                continue
            cs, r, out, src, crop = q.result
            mine, other = cs if which == "psf" else cs[::-1]
            if not s.add(f"draws once ({t})", "proved" if len(mine) == 1 and not other else "unsupported", (len(mine), len(other))):
                continue
            g = dict(mine[0])
            data = g.pop(which, None)
            s.add(f"returns the figure ({t})", "proved" if isinstance(r, tuple) and len(r) == 2 and r[0] is out[0] and r[1] is out[1] else "refuted")
            if not isinstance(data, SArr):
                s.add(f"draws an array ({t})", "unsupported", type(data))
                continue
            if which == "psf":
                f = q.facts
                lat, axi = wl * T.inv(2 * na * steps[1]) * 32, wl * T.inv((ni - T.sqrt(ni * ni - na * na)) * steps[0]) * 16
                lo, size = [], []
                for x, v, n in zip(crop, (axi, lat, lat), sh):
                    v = T.rint(v)
                    a = x - T.fdiv(v, num(2))
                    b = T.minv(a + v, n)
                    a = T.maxv(a, num(0))
                    lo.append(a)
                    size.append(T.maxv(b - a, num(0)))
                s.array(f"draws the window about the brightest sample ({t})", f, data, size, lambda *i: src.get([x + y for x, y in zip(lo, i)]))
            else:
                s.array(f"draws the normalized modulus ({t})", q.facts, data, sh, lambda *i: crop.get(i))
                for k, v in (("na", na), ("ni", ni), ("wl", wl)):
                    s.prove(f"{k} is passed on ({t})", eq(pnum(g.pop(k)), v), q.facts)
            for k, v in (("zres", steps[0]), ("res", steps[1])):
                s.prove(f"{k} is passed on ({t})", eq(pnum(g.pop(k)), v), q.facts)
            want = dict(opts)
            if which == "otf":
                want.setdefault("vmin", sym.lift(1e-4))
            dflt = inspect.signature(real[which + "_plot"]).parameters
            for k in sorted(set(g) | set(want)):
                if k not in g:
                    s.add(f"option {k} is passed on ({t})", "refuted", "missing")
                elif k not in want:
                    # an option the caller did not give: only its default value changes nothing
                    s.add(f"option {k} is left alone ({t})", "proved" if k in dflt and dflt[k].default is g[k] else "unsupported", g[k])
                else:
                    same(f"option {k} is passed on ({t})", g[k], want[k])

    for kind in "fi":
        s.guard(f"coordinates {kind}", lambda: numbers(kind))
    for mip in (None, True, False):
        for oi in range(len(OPTS)):
            for fig in (False, True):
                if mip is not True or oi in (0, 3) :
                    s.guard(f"psf_plot {mip} {oi} {fig}", lambda: psf(mip, oi, fig, "f"))
    s.guard("psf_plot of integers", lambda: [psf(m, 0, False, "i") for m in (True, False)])
    s.guard("psf_plot with mip as a number", lambda: [psf(m, 0, False, "f") for m in (1, 0)])
    for oi in range(len(OPTS)):
        if "gamma" in OPTS[oi]():
            continue
        for fig in (False, True):
            s.guard(f"otf_plot {oi} {fig}", lambda: otf(oi, fig))
    for kind, cls in (("model", "HanserPSF"), ("model", "SheppardPSF"), ("microscope", "Widefield hanser"), ("microscope", "Widefield sheppard")):
        for which in ("psf", "otf"):
            for oi in range(4):
                s.guard(f"{cls} plot_{which} {oi}", lambda: methods(kind, cls, which, oi))
    s.assume("matplotlib draws what imshow, set_title and add_patch are asked to draw; ImageGrid and figure have no other effect")
