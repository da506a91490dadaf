"""SheppardPSF: amplitude OTF and PSF (otf)."""
from pv.contract import *
from .optics import *
from .c03 import cdft


def shell(p, vec, cond, dual):
    """Element (component, plane, row, column) of the centred amplitude OTF."""
    def spec(c, i, j, k):
        kz, ky, kx = [(u - T.fdiv(n, num(2))) * T.inv(n * d) for u, n, d in ((i, p.nz, p.zres), (j, p.n, p.res), (k, p.n, p.res))]
        dk, dkz = T.inv(p.n * p.res), T.inv(p.nz * p.zres)
        kr = T.sqrt(kx * kx + ky * ky + kz * kz)
        kmag = p.ni * T.inv(p.wl)
        kmin = T.sqrt(kmag * kmag - (p.na * T.inv(p.wl)) ** 2)
        # the radial size of a voxel; dk itself when voxels are cubes, and 0 by convention at the origin (never on the shell)
        origin = band(*[eq(u, T.fdiv(n, num(2))) for u, n in ((i, p.nz), (j, p.n), (k, p.n))])
        vox = ite(eq(dk, dkz), dk, ite(origin, num(0), T.sqrt(dkz * dkz * kz * kz + dk * dk * (kx * kx + ky * ky)) * T.inv(kr)))
        up = T.absv(kz) if dual else kz
        on = band(lt(T.absv(kr - kmag), vox), lt(kmin + vox, up))
        m, n, s0 = [x * T.inv(kr) for x in (kx, ky, kz)]
        s = T.absv(s0)
        mir = ite(lt(0, s0), num(1), ite(lt(s0, 0), num(-1), num(0)))     # 1 on the shell of a single objective, where kz > 0
        a = {"none": num(1), "sine": T.inv(T.sqrt(s)), "herschel": T.inv(s)}[cond]
        q = T.inv(1 + s)
        pol = dict(none=[num(1)], z=[-m * mir, -n * mir], y=[-n * m * q, 1 - n * n * q], x=[1 - m * m * q, -m * n * q])
        pol["total"] = pol["z"] + pol["y"] + pol["x"]
        return (ite(on, a * pick(c, pol[vec]), num(0)), num(0))
    return spec


def contract(s):
    w = s.world()
    S_ = w.module("otf").SheppardPSF

    def go(vec, cond, dual, same):
        s.under("otf.SheppardPSF._gen_otf", "otf.SheppardPSF._gen_kr", "otf.SheppardPSF.OTFa")
        p = Par()
        pre = p.pre + p.prez + [lt(2 * p.zres * p.ni, p.wl), le(3, p.n), le(3, p.nz)]
        kw = p.kz()
        if same:
            kw, p.zres, p.nz = {}, p.res, p.n
            pre = p.pre + [lt(2 * p.res * p.ni, p.wl), le(3, p.n)]
        if dual is not None:
            kw["dual"] = dual
        t = f"{vec}, {cond}, dual {dual}{', cubic' if same else ''}"
        for q in s.paths(lambda: S_(vec_corr=vec, condition=cond, **p.kw(**kw)).OTFa, pre):
            if s.returns(f"OTFa can be read ({t})", q):
                s.array(f"OTFa ({t})", q.facts, q.result, (num(NCOMP[vec]), p.nz, p.n, p.n), shell(p, vec, cond, bool(dual)))
    for vec in VEC:
        for cond in COND:
            for dual in (None, False, True):
                for same in (False, True):
                    if dual is None and (cond != "sine" or not same) or dual is not None and same:
                        continue
                    s.guard(f"OTFa ({vec}, {cond}, {dual}, {same})", lambda: go(vec, cond, dual, same))

    def psfa():
        s.under("otf.SheppardPSF.PSFa")
        sh = tuple(ivar(x) for x in ("nc", "nz", "n", "n"))
        A = inarr("OTFa", sh, "c")

        def run():
            m = object.__new__(S_)
            m.__dict__["OTFa"] = A
            return m.PSFa
        for q in s.paths(run, [le(1, x) for x in sh]):
            if s.returns("PSFa of any OTFa", q):
                s.array("PSFa is the centred inverse transform of OTFa", q.facts, q.result, sh,
                        lambda *i: cdft(True, A.orig, sh, (1, 2, 3), i))
    s.guard("PSFa", psfa)
    s.assume("at least 3 pixels along each axis (with 2, the code's voxel size along that axis is negative and its shell empty: run-time contract only)")
