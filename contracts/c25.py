"""cart2pol and psqrt (utils)."""
from pv.contract import *


def contract(s):
    w = s.world()
    u = w.module("utils")
    n, m = ivar("n"), ivar("m")
    shapes = [("2d", (n, m), (n, m)), ("1d", (n,), (n,)), ("0d", (), ()), ("broadcast", (n, 1), (1, m))]

    def c2p():
        s.under("utils.cart2pol")
        for tag, sy, sx in shapes:
            y, x = inarr("y", sy), inarr("x", sx)
            out = sy if tag != "broadcast" else (n, m)
            for p in s.paths(lambda: u.cart2pol(y, x), [le(1, n), le(1, m)]):
                if not s.returns(f"returns ({tag})", p):
                    continue
                rho, theta = p.result
                ye = (lambda *i: y.orig(tuple(i))) if tag != "broadcast" else (lambda i, j: y.orig((i, num(0))))
                xe = (lambda *i: x.orig(tuple(i))) if tag != "broadcast" else (lambda i, j: x.orig((num(0), j)))
                # the angle is that of the point (x, y); arctan2's own contract gives its range and
                # x = hypot(x, y) cos(theta), y = hypot(x, y) sin(theta)
                s.array(f"rho = sqrt(x^2 + y^2) ({tag})", p.facts, rho, out,
                        lambda *i: T.sqrt(ye(*i) * ye(*i) + xe(*i) * xe(*i)))
                s.array(f"theta = atan2(y, x) ({tag})", p.facts, theta, out, lambda *i: T.atan2(ye(*i), xe(*i)))
                s.array(f"rho cos(theta) = x ({tag})", p.facts, sym.array_op("mul", sym.asarr(rho), symnp.cos(theta))
                        if out else S(sym.to_num(rho.v) * T.cos(theta.v), DT["f"]), out, xe)
                s.array(f"rho sin(theta) = y ({tag})", p.facts, sym.array_op("mul", sym.asarr(rho), symnp.sin(theta))
                        if out else S(sym.to_num(rho.v) * T.sin(theta.v), DT["f"]), out, ye)
                s.unchanged(f"arguments are not modified ({tag})", p.facts, y, x)
        # scalars
        y, x = pyfloat(rvar("ys")), pyfloat(rvar("xs"))
        for p in s.paths(lambda: u.cart2pol(y, x)):
            if s.returns("returns (scalars)", p):
                rho, theta = p.result
                s.equal("rho (scalars)", rho.v, T.sqrt(y.v * y.v + x.v * x.v), p.facts)
                s.equal("theta (scalars)", theta.v, T.atan2(y.v, x.v), p.facts)
    s.guard("cart2pol", c2p)

    def ps():
        s.under("utils.psqrt")
        for kind in "fi":
            for sh in ((n, m), (n,), ()):
                d = inarr("d", sh, kind)
                for p in s.paths(lambda: u.psqrt(d), [le(1, n), le(1, m)]):
                    if s.returns(f"returns ({kind}{len(sh)})", p):
                        s.array(f"root of the positive part ({kind}{len(sh)})", p.facts, p.result, sh,
                                lambda *i: ite(lt(0, d.orig(tuple(i))), T.sqrt(d.orig(tuple(i))), num(0)))
                        s.unchanged(f"argument is not modified ({kind}{len(sh)})", p.facts, d)
    s.guard("psqrt", ps)
    s.assume("numpy.arctan2 returns an angle in [-pi, pi] with hypot(x,y)*cos(theta) = x and hypot(x,y)*sin(theta) = y")
