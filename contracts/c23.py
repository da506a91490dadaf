"""z_squeeze (display)."""
from pv.contract import *
from pv import mpl


def contract(s):
    w = s.world(mpl.Recorder().modules())
    z = w.module("display").z_squeeze
    a, b, d, na = rvar("n1"), rvar("n2"), rvar("n3"), rvar("na")
    pre = [lt(0, a), lt(0, b), lt(0, d), lt(0, na)]
    s.under("display.z_squeeze")

    def f(n):
        return n - ite(lt(0, n * n - na * na), T.sqrt(n * n - na * na), num(0))

    def hint(mv):
        return dict(n=[mv(a), mv(b), mv(d)], na=mv(na))

    def main():
        for tag, mk in (("real", pyfloat), ("same index", lambda p: pyfloat(a if p is b else p))):
            aa, bb = mk(a).v, mk(b).v
            for p in s.paths(lambda: z(mk(a), mk(b), pyfloat(na)), pre):
                if s.returns(f"returns ({tag})", p):
                    r = val(p.result)
                    s.prove(f"n - sqrt(max(0, n^2 - na^2)) is positive ({tag})", lt(0, f(bb)), p.facts)
                    s.equal(f"ratio of n - sqrt(n^2 - na^2) ({tag})", r * f(bb), f(aa), p.facts, hint)
                    s.prove(f"positive ({tag})", lt(0, r), p.facts, hint)
                    if tag != "real":
                        s.equal("1 for equal indices", r, num(1), p.facts, hint)
        for p in s.paths(lambda: (z(pyfloat(a), pyfloat(b), pyfloat(na)), z(pyfloat(b), pyfloat(a), pyfloat(na))), pre):
            if s.returns("returns (both ways)", p):
                x, y = [val(v) for v in p.result]
                s.equal("reciprocal when the media are swapped", x * y, num(1), p.facts, hint)
        for p in s.paths(lambda: (z(pyfloat(a), pyfloat(b), pyfloat(na)), z(pyfloat(b), pyfloat(d), pyfloat(na)),
                                  z(pyfloat(a), pyfloat(d), pyfloat(na))), pre):
            if s.returns("returns (chain)", p):
                x, y, t = [val(v) for v in p.result]
                s.equal("multiplicative along a chain", x * y, t, p.facts, hint)
    s.guard("z_squeeze", main)
    s.guard("z_squeeze (integers)", lambda: ints(s, z))


def ints(s, z):
    a, b, na = ivar("k1"), ivar("k2"), rvar("na")
    for p in s.paths(lambda: z(pyint(a), pyint(b), pyfloat(na)), [lt(0, a), lt(0, b), lt(0, na)]):
        if s.returns("returns (integers)", p):
            r = val(p.result)

            def f(n):
                return n - ite(lt(0, n * n - na * na), T.sqrt(n * n - na * na), num(0))
            s.equal("ratio of n - sqrt(n^2 - na^2) (integers)", r * f(b), f(a), p.facts,
                    lambda mv: dict(n=[mv(a), mv(b), 1.5], na=mv(na)))
