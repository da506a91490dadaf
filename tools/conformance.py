"""Compares the verifier with the real thing: every library contract with its library (as each check does for those it relied on), and
pyotf's functions, executed symbolically and then evaluated at concrete points, with the same functions under CPython and numpy."""
import importlib, os, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("MPLBACKEND", "Agg")
import pv
from pv import conform, ctx, load, term as T
from pv.contract import *
sys.setrecursionlimit(20000)
Fr = lambda x: num(str(x)).const()

F = []


def case(name, fn, sizes=None, pre=()):
    F.append((name, fn, sizes, pre))


u2 = np_dt = __import__("numpy").dtype("uint16")
case("easy_fft, easy_ifft", lambda l, a: [l.utils.easy_fft(a.arr("x", "n m", "c")), l.utils.easy_ifft(a.arr("x", "a n m"), axes=(1, 2))])
case("fft_pad", lambda l, a: [l.utils.fft_pad(a.arr("x", "n m"), (5, 2), mode="constant"), l.utils.fft_pad(a.arr("x", "n m"), (a.int("p"), 7), mode="constant")])
case("cart2pol", lambda l, a: list(l.utils.cart2pol(a.arr("y", "n m"), a.arr("x", "n m"))))
case("center_data", lambda l, a: l.utils.center_data(a.arr("x", "a n m")))
case("psqrt", lambda l, a: l.utils.psqrt(a.arr("x", "n m")))
case("prep_data_for_PR", lambda l, a: [l.utils.prep_data_for_PR(a.arr("x", "2 3 3", dtype=u2), s, 1.5) for s in (3, 4, 2)])
case("bin_ndarray", lambda l, a: [l.utils.bin_ndarray(a.arr("x", "6 9"), bin_size=(2, 3)), l.utils.bin_ndarray(a.arr("x", "6 9"), new_shape=(3, 3), operation="mean")])
case("radial_profile", lambda l, a: [list(l.utils.radial_profile(a.arr("x", "n m"))), list(l.utils.radial_profile(a.arr("x", "n m", "c"), (0.5, 1), 1.5))])
case("slice_maker", lambda l, a: list(l.utils.slice_maker((a.real("t"), a.int("n")), (a.int("m"), 3))))
case("noll2degrees, degrees2noll", lambda l, a: [list(l.zernike.noll2degrees(a.int("n"))), l.zernike.degrees2noll(4, -2)])
for nm in ((0, 0), (1, 1), (4, -2), (6, 0)):
    case(f"zernike {nm}", lambda l, a, nm=nm: l.zernike.zernike(abs(a.arr("r", "n m")) / 4, a.arr("t", "n m"), *nm))
OPT = [("wl", "0.5"), ("na", "0.8"), ("ni", "1.3"), ("res", "0.15"), ("zres", "0.125")]
V = lambda k: rvar(k)
PRE = [lt(0, V(k)) for k, _ in OPT] + [le(V("na"), V("ni")), lt(2 * V("res") * V("na"), V("wl")), lt(2 * V("zres") * V("ni"), V("wl")), lt(2 * V("px") * V("ni"), V("wl")),
                                      lt(0, V("px"))]
vals = lambda rnd: dict({k: Fr(v) for k, v in OPT}, px=Fr("0.14"), exc=Fr("0.45"), pin=Fr("1.25"), n=rnd.randint(3, 5), m=rnd.randint(3, 4))
kw = lambda a: {k: a.real(k) for k, _ in OPT}
for vec in ("none", "x", "y", "z", "total"):
    for cond in ("none", "sine", "herschel"):
        case(f"HanserPSF {vec} {cond}", lambda l, a, vec=vec, cond=cond: l.otf.HanserPSF(size=a.int("n"), zsize=2, vec_corr=vec, condition=cond, **kw(a)).PSFa, vals, PRE)
        case(f"SheppardPSF {vec} {cond}", lambda l, a, vec=vec, cond=cond: l.otf.SheppardPSF(size=a.int("n"), zsize=a.int("m"), vec_corr=vec, condition=cond, dual=cond == "sine", **kw(a)).OTFa,
             vals, PRE + [le(3, ivar("n")), le(3, ivar("m"))])


def mkw(a, q):
    return dict(model="hanser", na=a.real("na"), ni=a.real("ni"), wl=a.real("wl"), size=a.int("n"), zsize=2, zres=a.real("zres"), pixel_size=a.real("px"), oversample_factor=q)


PRE2 = PRE + [lt(0, V("exc")), lt(0, V("pin")), lt(2 * V("px") * V("na"), V("exc"))]
case("WidefieldMicroscope", lambda l, a: l.microscope.WidefieldMicroscope(**mkw(a, 1)).PSF, vals, PRE2)
case("ConfocalMicroscope", lambda l, a: l.microscope.ConfocalMicroscope(wl_exc=a.real("exc"), pinhole_size=0.25, **mkw(a, 1)).model_psf, vals, PRE2)
case("SIM3DMicroscope", lambda l, a: l.microscope.SIM3DMicroscope(na_exc=0.5, wl_exc=a.real("exc"), wiener=None, dc_suppress=True, orientations=(0.0, 1.0), **mkw(a, 1)).model_psf, vals, PRE2)
case("apply_aberration", lambda l, a: l.otf.apply_aberration(l.otf.HanserPSF(size=a.int("n"), zsize=2, **kw(a)), None, a.arr("c", "5")).PSFa, vals, PRE)
case("display", lambda l, a: [l.display.max_min(a.int("n"), a.real("t")), l.display.fft_max_min(a.int("n"), a.real("t")), l.display.z_squeeze(1.3, 1.5, 0.9)])

if __name__ == "__main__":
    done, n, skipped, bad, rest = conform.check()
    print(len(done), "library contracts,", n, "elements agree,", skipped, "without a value", flush=True)
    w = load.World()
    sys.path.insert(0, load.REPO)
    mine, real = conform.Libs(w.module), conform.Libs(lambda n: importlib.import_module("pyotf." + n))
    for name, fn, sizes, pre in F:
        t = time.time()
        try:
            with ctx.at(P.Facts([], [])):
                pass
            r = conform.run_case(fn, mine, real, list(pre) + [le(1, ivar(k)) for k in "anmpq"] + [lt(0, rvar("t"))], name=name, sizes=sizes,
                                 seeds=(1, 2) if sizes else (1, 2, 3))
            print(f"{name}: {r[0]} elements agree, {r[1]} without a value, {time.time() - t:.1f} s", flush=True)
        except ctx.Unsupported as e:
            print(f"{name}: outside the verifier's reach: {str(e)[:200]}", flush=True)
        except AssertionError as e:
            bad.append(f"{name}: {e}")
    for b in bad:
        print("DIFFERENT", b)
    sys.exit(bool(bad))
