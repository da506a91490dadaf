"""Specification functions shared by the contracts of the optical models."""
from pv.contract import *

VEC = ("none", "x", "y", "z", "total")
COND = ("none", "sine", "herschel")
NCOMP = dict(none=1, x=2, y=2, z=2, total=6)
PI = T.PI


class Par:
    """Symbolic parameters of a model, with the constraints under which the property speaks about it."""

    def __init__(self, tag="", zmodel="default"):
        v = lambda n: rvar(n + tag)
        self.wl, self.na, self.ni, self.res, self.zres = v("wl"), v("na"), v("ni"), v("res"), v("zres")
        self.n, self.nz = ivar("size" + tag), ivar("zsize" + tag)
        self.pre = [lt(0, self.wl), lt(0, self.na), lt(0, self.ni), le(self.na, self.ni), lt(0, self.res),
                    lt(2 * self.res * self.na, self.wl), le(1, self.n)]
        self.prez = [lt(0, self.zres), le(1, self.nz)]

    def kw(self, **more):
        d = dict(wl=pyfloat(self.wl), na=pyfloat(self.na), ni=pyfloat(self.ni), res=pyfloat(self.res), size=pyint(self.n))
        d.update(more)
        return d

    def kz(self):
        return dict(zres=pyfloat(self.zres), zsize=pyint(self.nz))


def freq(i, n, d):
    """Spatial frequency of sample i of an n point DFT with sampling d (zero frequency first)."""
    return ite(lt(2 * i, n), i, i - n) * T.inv(n * d)


def hanser_lam(p, pupil, vec, cond, z, comp, disk=True):
    """Fourier-domain element (row u, column v) of component comp at height z."""
    def f(u, v):
        ky, kx = freq(u, p.n, p.res), freq(v, p.n, p.res)
        k2 = kx * kx + ky * ky
        kr = T.sqrt(k2)
        inside = lt(kr, p.na * T.inv(p.wl)) if pupil is None else lt(kr, p.ni * T.inv(p.wl))
        kz = T.sqrt((p.ni * T.inv(p.wl)) ** 2 - k2)
        sint = kr * p.wl * T.inv(p.ni)
        cost = T.sqrt(num(1) - sint * sint)
        a = {"none": num(1), "sine": T.inv(T.sqrt(cost)), "herschel": T.inv(cost)}[cond]
        phi = T.atan2(ky, kx)
        cp, sp = T.cos(phi), T.sin(phi)
        pol = polarization(vec, sint, cost, cp, sp)[comp]
        base = (num(1), num(0)) if pupil is None else pupil(u, v)
        ph = 2 * PI * kz * z
        c, s = T.cos(ph), T.sin(ph)
        re = base[0] * c - base[1] * s
        im = base[0] * s + base[1] * c
        return [ite(inside, re * a * pol, num(0)), ite(inside, im * a * pol, num(0))]
    return f


def polarization(vec, sint, cost, cp, sp):
    zx, zy = sint * cp, sint * sp
    yx = (cost - 1) * sp * cp
    yy = cost * sp * sp + cp * cp
    xx = cost * cp * cp + sp * sp
    xy = (cost - 1) * sp * cp
    return dict(none=[num(1)], z=[zx, zy], y=[yx, yy], x=[xx, xy], total=[zx, zy, yx, yy, xx, xy])[vec]


def hanser_psfa(p, pupil, vec, cond, zat):
    """Element (component, plane, row, column) of the amplitude PSF."""
    def spec(c, z, y, x):
        h = T.fdiv(p.n, num(2))
        idx = [ite(le(h, i), i - h, i - h + p.n) for i in (y, x)]
        vals = []
        for comp in range(NCOMP[vec]):
            f = hanser_lam(p, pupil, vec, cond, zat(z), comp)
            vals.append(symnp.dft_lam(True, T.lam([p.n, p.n], lambda i: f(*i)), idx))
        return (pick(c, [v[0] for v in vals]), pick(c, [v[1] for v in vals]))
    return spec


def pick(k, vals):
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = ite(eq(k, num(j)), vals[j], r)
    return r
