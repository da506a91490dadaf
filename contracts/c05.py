"""slice_maker (utils)."""
from pv.contract import *


def contract(s):
    w = s.world()
    sm = w.module("utils").slice_maker

    def run(nd, kind, form, name):
        mkv = ivar if kind == "i" else rvar
        mkp = pyint if kind == "i" else pyfloat
        xs = [mkv(f"x{d}") for d in range(nd)]
        ws = [mkv(f"w{d}") for d in range(nd)] if form == "seq" else [mkv("w")] * nd

        def call():
            X = [mkp(x) for x in xs]
            if name == "tuple":
                X = tuple(X)
            elif name == "array":
                X = symnp.array(X)
            return sm(X, [mkp(v) for v in ws] if form == "seq" else mkp(ws[0]))
        tag = f"{nd} axes, {'integer' if kind == 'i' else 'real'}, {'a width per axis' if form == 'seq' else 'one width'}, {name}"

        def hint(mv):
            return dict(xs=[mv(x) for x in xs], ws=[mv(v) for v in ws] if form == "seq" else mv(ws[0]))
        for p in s.paths(call, [le(0, v) for v in ws]):
            if not s.returns(f"returns ({tag})", p):
                continue
            r = p.result
            if not s.add(f"one slice per axis ({tag})", "proved" if isinstance(r, tuple) and len(r) == nd and
                         all(isinstance(q, slice) for q in r) else "refuted", r):
                continue
            for d, q in enumerate(r):
                if not s.add(f"unit step ({tag})", "proved" if q.step is None or q.step == 1 else "refuted", q):
                    continue
                if q.start is None or q.stop is None:
                    s.add(f"bounds are given ({tag})", "unsupported", q)
                    continue
                a, b = sym.intpoly(q.start), sym.intpoly(q.stop)
                x, v = T.rint(xs[d]), T.rint(ws[d])
                lo = x - T.fdiv(v, num(2))
                hi = lo + v
                s.prove(f"bounds are not negative ({tag})", band(le(0, a), le(0, b)), p.facts, hint)
                s.prove(f"window of a positive part ({tag})", implies(band(lt(0, hi), lt(0, v)), band(eq(a, T.maxv(lo, num(0))), eq(b, hi))),
                        p.facts, hint)
                s.prove(f"empty below zero or for width zero ({tag})", implies(bor(le(hi, num(0)), le(v, num(0))), le(b, a)),
                        p.facts, hint)

    def ok():
        s.under("utils.slice_maker", "utils._calc_pad")
        for nd in (1, 2, 3):
            for kind in "ir":
                for form in ("seq", "one"):
                    run(nd, kind, form, "list")
        run(2, "i", "one", "tuple")
        run(2, "r", "one", "array")
    s.guard("slice_maker", ok)

    def bad():
        s.under("utils.slice_maker")
        for nd in (1, 2, 3):
            for k in range(nd):
                for kind, mkv, mkp in (("i", ivar, pyint), ("r", rvar, pyfloat)):
                    ws = [mkv(f"w{d}") for d in range(nd)]
                    xs = [mkv(f"x{d}") for d in range(nd)]
                    for form in ("seq", "one"):
                        if form == "one":
                            ws = [ws[0]] * nd
                        for p in s.paths(lambda: sm([mkp(x) for x in xs], [mkp(v) for v in ws] if form == "seq" else mkp(ws[0])),
                                         [lt(ws[k], 0)]):
                            s.raises(f"a negative width is rejected ({nd} axes, {kind}, {form})", p, ValueError)
    s.guard("negative widths", bad)

    def cplx():
        s.under("utils.slice_maker")
        c = S((rvar("re"), rvar("im")), DT["c"])
        x, v = pyfloat(rvar("x")), pyfloat(rvar("w"))
        for name, call in (("centre", lambda: sm([c, x], v)), ("width", lambda: sm([x, x], c)),
                           ("widths", lambda: sm([x, x], [v, c])), ("both", lambda: sm([c, c], [c, c]))):
            for p in s.paths(call):
                s.raises(f"complex input is rejected ({name})", p, TypeError)
    s.guard("complex input", cplx)
    s.assume("slice_maker is proved for 1, 2 and 3 axes (the axes are treated independently)")
