"""Shared by the contracts of the microscopes: the models are used through their own contract.

By C10 (and C11 to C13) a model's intensity PSF is a function of the model's current parameters, real, never negative and of shape
planes x size x size.  The microscopes are verified against exactly that: `PSFi` of the model classes is replaced by a cached unknown
array that depends on the class and every current parameter and on nothing else."""
import functools
from pv.contract import *
from .c03 import cdft

STR = ("vec_corr", "condition", "dual")
NUMS = ("wl", "na", "ni", "res", "size", "zres", "zsize")


def pnum(x):
    x = sym.lift(x)
    return sym.to_num(x.v)


def fine_elem(cls, d, *idx):
    """Element of the model PSF of the class with the parameters d."""
    name = "psf." + cls + "." + ".".join(str(d.get(k, {"vec_corr": "none", "condition": "sine", "dual": False}[k])) for k in STR
                                         if k != "dual" or cls == "SheppardPSF")
    return T.app(name, tuple(T.coerce(d[k]) for k in NUMS) + tuple(idx), "R")


def otf_elem(cls, d, *idx):
    """Element of the model OTF."""
    p = fine_elem(cls, d, *idx).atom()
    return tuple(T.app(p.name.replace("psf.", "otf.", 1) + x, p.args, "R") for x in (".re", ".im"))


def stub_models(w):
    """Replace the models' outputs by their contract; returns the otf module."""
    otf = w.module("otf")

    def PSFi(self):
        d = {k: pnum(getattr(self, k)) for k in NUMS}
        d.update({k: getattr(self, k) for k in STR if hasattr(self, k)})
        cls = "SheppardPSF" if isinstance(self, otf.SheppardPSF) else "HanserPSF"
        if cls == "HanserPSF":
            z = self.zrange      # the default range, by the contract of C10
            if not isinstance(z, SArr):
                raise Unsupported("a model with another z range")
        sh = (d["zsize"], d["size"], d["size"])
        n = sh[0].const(), sh[1].const()

        def el(idx):
            return fine_elem(cls, d, *idx)
        r = SArr(el, sh, DT["f"])
        r.orig = el
        READ.append(r)
        return r

    def no(name):
        def f(self, *a, **k):
            raise Unsupported(f"a microscope that uses {name} of its model")
        return f
    prop = functools.cached_property(PSFi)
    for c in (otf.BasePSF, otf.HanserPSF, otf.SheppardPSF):
        c.PSFi = prop
    prop.attrname = "PSFi"
    def OTFi(self):
        """By C13 a function of PSFi alone: unknown complex elements."""
        d = {k: pnum(getattr(self, k)) for k in NUMS}
        d.update({k: getattr(self, k) for k in STR if hasattr(self, k)})
        cls = "SheppardPSF" if isinstance(self, otf.SheppardPSF) else "HanserPSF"

        def el(idx):
            return otf_elem(cls, d, *idx)
        r = SArr(el, (d["zsize"], d["size"], d["size"]), DT["c"])
        r.orig = el
        READ.append(r)
        return r
    prop = functools.cached_property(OTFi)
    for c in (otf.BasePSF, otf.HanserPSF, otf.SheppardPSF):
        c.OTFi = prop
    prop.attrname = "OTFi"
    for c in (otf.HanserPSF, otf.SheppardPSF):
        p = functools.cached_property(no("PSFa"))
        p.attrname = "PSFa"
        c.PSFa = p
    return otf


READ = []       # the arrays handed out on the current path


class MPar:
    """Symbolic parameters of a microscope."""

    def __init__(self, q, n=None):
        v = rvar
        self.wl, self.na, self.ni, self.px, self.zres = v("wl"), v("na"), v("ni"), v("pixel_size"), v("zres")
        self.n, self.nz = ivar("size") if n is None else n, ivar("zsize")
        self.q = q if isinstance(q, T.Poly) else num(q)
        self.pyq = pyint(self.q)
        self.pre = [lt(0, self.wl), lt(0, self.na), lt(0, self.ni), le(self.na, self.ni), lt(0, self.px), lt(0, self.zres), le(1, self.n),
                    le(1, self.nz), lt(2 * self.px * self.na, self.wl * self.q), lt(2 * self.zres * self.ni, self.wl),
                    lt(2 * self.px * self.ni, self.wl)]
        self.z = True

    def kw(self, model, z=True, **more):
        self.z = z
        d = dict(model=model, wl=pyfloat(self.wl), na=pyfloat(self.na), ni=pyfloat(self.ni), size=pyint(self.n),
                 pixel_size=pyfloat(self.px), oversample_factor=self.pyq)
        if z:
            d.update(zres=pyfloat(self.zres), zsize=pyint(self.nz))
        d.update(more)
        return d

    def fine(self, **over):
        """Parameters of the fine grid's model."""
        d = dict(wl=self.wl, na=self.na, ni=self.ni, res=self.px * T.inv(self.q), size=self.n * self.q,
                 zres=self.zres if self.z else self.px, zsize=self.nz if self.z else self.n)
        d.update(over)
        return d


def binned(d, q, n, fine):
    """Element (plane, row, column) of the camera image: the block of camera pixel n//2 is centred on the fine sample (n q)//2."""
    N = n * q
    h = T.fdiv(q, num(2))

    def coord(Y, t):
        c = T.fdiv(N, num(2)) + (Y - T.fdiv(n, num(2))) * q + t - h
        return ite(lt(c, 0), c + N, ite(lt(c, N), c, c - N))

    def spec(z, Y, X):
        return T.ssum([q, q], lambda v: fine(z, coord(Y, v[0]), coord(X, v[1])))
    return spec


class Stub:
    """A microscope class whose fine-grid PSF is an unknown function of its settings: decides what PSF and OTF make of it."""

    def __init__(self, cls, settings):
        self.read = read = []

        def model_psf(m):
            g = settings(m)
            mm = m.model
            sh = [pnum(mm.zsize), pnum(mm.size), pnum(mm.size)]

            def el(idx):
                return self.elem(g, *idx)
            r = SArr(el, sh, DT["f"])
            r.orig = el
            read.append(r)
            return r
        self.cls = type(cls.__name__, (cls,), dict(model_psf=property(model_psf)))
        self.cls.__module__ = cls.__module__

    def elem(self, g, *idx):
        return T.app("model_psf." + ".".join(x for x in g if isinstance(x, str)),
                     tuple(T.coerce(x) for x in g if not isinstance(x, str)) + tuple(idx), "R")


def check_image(s, name, facts, r, o, p, d, fine):
    """PSF r and OTF o of the camera grid follow from the fine-grid PSF."""
    img = binned(d, p.q, p.n, fine) if p.q.const() != 1 else fine
    sh = (d["zsize"], p.n, p.n)
    tot = T.ssum(list(sh), lambda i: img(*i))
    s.array(f"PSF {name}", facts, r, sh, lambda *i: img(*i) * T.inv(tot), kind="f")
    if o is not None:
        s.array(f"OTF {name}", facts, o, sh, lambda *i: cdft(False, lambda j: (r.get(j), num(0)), sh, (0, 1, 2), i), kind="c")
