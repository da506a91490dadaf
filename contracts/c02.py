"""zernike, _zernike and _radial_zernike (zernike)."""
from math import factorial
from fractions import Fraction
from pv.contract import *
from .c01 import NOLL


def radial(n, m, r):
    """The textbook radial polynomial R_n^|m|, which is 1 at r = 1."""
    m = abs(m)
    p = num(0)
    for k in range((n - m) // 2 + 1):
        c = Fraction((-1) ** k * factorial(n - k), factorial(k) * factorial((n + m) // 2 - k) * factorial((n - m) // 2 - k))
        p = p + num(c) * T.power(r, n - 2 * k)
    return p


def mode(n, m, norm, r, t):
    """The textbook value at (r, t)."""
    v = radial(n, m, r) * (T.cos(num(m) * t) if m >= 0 else T.sin(num(-m) * t))
    if norm:
        v = v * T.sqrt(num(n + 1) if m == 0 else num(2 * (n + 1)))
    return ite(le(r, 1), v, num(0))


def contract(s):
    w = s.world()
    z = w.module("zernike").zernike
    a, b = ivar("a"), ivar("b")
    er, et = elem("r"), elem("theta")

    def inputs(sh):
        r, t = inarr("r", sh), inarr("theta", sh)
        return r, t, [le(2, v) for v in sh], [T.lam(list(sh), lambda i: [le(0, er(*i))])]

    for n in range(13):
        for m in range(-n, n + 1, 2):
            assert sum(Fraction(0) + c for _, c in radial(n, m, num(1)).m) == 1

    def one(call, n, m, norm, sh, tag, ins):
        r, t, pre, fa = ins
        for p in s.paths(lambda: call(r, t), pre, fa):
            if s.returns(f"returns ({tag})", p):
                s.array(f"mode {n}, {m} ({tag})", p.facts, p.result, sh, lambda *i: mode(n, m, norm, er(*i), et(*i)),
                        model_hint=lambda mv: dict(kind="all", seed=3, norm=norm))
                s.unchanged(f"coordinates are not modified ({tag})", p.facts, r, t)

    def nolls():
        """The 120 modes of C01, with the Jacobi polynomials written out."""
        s.under("zernike.zernike", "zernike._zernike", "zernike._radial_zernike")
        ins = inputs((a, b))
        symnp.JACOBI["expand"] = True
        try:
            for j, (n, m) in NOLL.items():
                one(lambda r, t: z(r, t, j), n, m, True, (a, b), f"Noll {j}", ins)
                one(lambda r, t: z(r, t, n, m, norm=False), n, m, False, (a, b), f"degrees {n}, {m}, not normalized", ins)
            for n in range(15, 21):
                for m in (n, -n, n - 2, 2 - n, n % 2, -(n % 2)):
                    one(lambda r, t: z(r, t, n, m), n, m, True, (a, b), f"degrees {n}, {m}", ins)
        finally:
            symnp.JACOBI["expand"] = False
    s.guard("modes 1 to 120", nolls)

    def forms():
        """Shapes, keyword forms and sequences."""
        s.under("zernike.zernike")
        import numpy as np
        symnp.JACOBI["expand"] = True
        try:
            for sh in ((), (a,), (a, b)):
                ins = inputs(sh)
                for n, m in ((0, 0), (2, 0), (3, -1), (3, 1), (4, -4), (5, 3)):
                    for norm in (True, False):
                        one(lambda r, t: z(r, t, n, m, norm=norm), n, m, norm, sh, f"{len(sh)}d, norm={norm}", ins)
                    one(lambda r, t: z(r, t, np.array([[n], [m]])), n, m, True, sh, f"{len(sh)}d, pair array", ins)
                    one(lambda r, t: z(r, t, [[n], [m]]), n, m, True, sh, f"{len(sh)}d, pair list", ins)
            js = [4, 1, 8, 7, 3, 11, 2]
            nm = [NOLL[j] for j in js]
            for sh in ((), (a,), (a, b)):
                r, t, pre, fa = inputs(sh)
                for tag, args in (("Noll list", (js,)), ("Noll array", (np.array(js),)), ("pairs", (np.array(nm).T,)),
                                  ("two lists", ([n for n, _ in nm], [m for _, m in nm])), ("Noll tuple", (tuple(js),))):
                    for norm in (None, True, False):
                        kw = {} if norm is None else dict(norm=norm)
                        for p in s.paths(lambda: z(r, t, *args, **kw), pre, fa):
                            if s.returns(f"sequence returns ({tag}, {len(sh)}d)", p):
                                s.array(f"one map per mode, in order ({tag}, {len(sh)}d, norm={norm})", p.facts, p.result, (num(len(js)),) + sh,
                                        lambda k, *i: pick(k, [mode(n, m, norm is not False, er(*i), et(*i)) for n, m in nm]))
        finally:
            symnp.JACOBI["expand"] = False
    s.guard("argument forms", forms)

    def general():
        """Any degrees at all: the value is (-1)^c r^|m| P_c^(|m|,0)(1 - 2 r^2) times the angular part, c = (n - |m|)/2."""
        s.under("zernike._zernike", "zernike._radial_zernike")
        n, m, c = ivar("n"), ivar("m"), ivar("c")
        for sign, am, mm in (("m > 0", m, m), ("m = 0", num(0), num(0)), ("m < 0", m, -m)):
            con = [le(1, m)] if sign != "m = 0" else []
            for norm in (True, False):
                for sh in ((a, b), (a,)):
                    r, t, pre, fa = inputs(sh)
                    for p in s.paths(lambda: z(r, t, pyint(n), pyint(mm), norm=norm), pre + con + [le(1, n), le(0, c), eq(n - am, 2 * c)], fa):
                        tag = f"{sign}, norm={norm}, {len(sh)}d"
                        if not s.returns(f"returns ({tag})", p):
                            continue

                        def spec(*i):
                            x, th = er(*i), et(*i)
                            v = sym.epow(num(-1), c) * sym.epow(x, am) * T.app("jacobi", (c, am, num(0), num(1) - 2 * x * x))
                            v = v * (T.sin(am * th) if sign == "m < 0" else T.cos(am * th))
                            if norm:
                                v = v * T.sqrt(n + 1 if sign == "m = 0" else 2 * (n + 1))
                            return ite(le(x, 1), v, num(0))
                        s.array(f"any degrees ({tag})", p.facts, p.result, sh, spec)
    s.guard("any degrees", general)

    def bad():
        s.under("zernike.zernike")
        import numpy as np
        for sh in ((), (a,), (a, b)):
            idx = [ivar(f"k{d}") for d in range(len(sh))]
            inr = [le(0, i) for i in idx] + [lt(i, v) for i, v in zip(idx, sh)]
            r, t, pre, fa = inputs(sh)
            for args in ((4,), (2, 0), (np.array([[2, 3], [0, 1]]),)):
                for p in s.paths(lambda: z(r, t, *args), inr + pre + [lt(er(*idx), 0)]):
                    s.raises(f"a negative radius is rejected ({len(sh)}d)", p, Exception)
            n, m, h = ivar("n"), ivar("m"), ivar("h")
            for nm, c in (("m > n", lt(n, m)), ("-m > n", lt(n, -m))):
                for p in s.paths(lambda: z(r, t, pyint(n), pyint(m)), pre + [le(0, n), c], fa):
                    s.raises(f"{nm} is rejected ({len(sh)}d)", p, Exception)
                for p in s.paths(lambda: z(r, t, [2, pyint(n)], [0, pyint(m)]), pre + [le(0, n), c], fa):
                    s.raises(f"{nm} is rejected in a sequence ({len(sh)}d)", p, Exception)
                for p in s.paths(lambda: z(r, t, [[2, pyint(n), 4], [0, pyint(m), 2]]), pre + [le(0, n), c], fa):
                    s.raises(f"{nm} is rejected in a pair array ({len(sh)}d)", p, Exception)
    s.guard("rejections", bad)
    s.lemma("(-1)^c r^m P_c^(m,0)(1 - 2 r^2) with c = (n-m)/2 is the textbook radial polynomial (checked here, exactly, for the "
            "modes up to n = 14 and 36 modes up to n = 20; known identity beyond)")
    s.assume("scipy.special.eval_jacobi is the Jacobi polynomial (its explicit sum)")
    s.assume("sizes of the coordinate arrays are at least 2 (axes of length 1 are squeezed away by design)")


def pick(k, vals):
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = ite(eq(k, num(j)), vals[j], r)
    return r
