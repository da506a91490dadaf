"""fft_pad (utils)."""
from pv.contract import *


def half(n):
    return -T.fdiv(-n, num(2))


def contract(s):
    w = s.world()
    u = w.module("utils")
    O = [ivar("o0"), ivar("o1"), ivar("o2")]
    N = [ivar("n0"), ivar("n1"), ivar("n2")]

    def pad(nd, forms, mode, kind="f"):
        """forms: per axis 'n' (a size) or '-' (None); or 'int', 'npint', 'fast' for the whole shape."""
        old = tuple(O[:nd])
        x = inarr("data", old, kind)
        pre = [le(1, o) for o in old]
        if forms in ("int", "npint"):
            new = (N[0],) * nd
            pre += [le(1, N[0])]
            arg = pyint(N[0]) if forms == "int" else S(N[0], DT["i"], False)
        elif forms == "fast":
            new = tuple(sym.intpoly(symnp.next_fast_len(pyint(o))) for o in old)
            arg = None
        else:
            new = tuple(N[d] if f == "n" else old[d] for d, f in enumerate(forms))
            pre += [le(1, n) for n in new]
            arg = tuple(pyint(N[d]) if f == "n" else None for d, f in enumerate(forms))
        kw = {} if mode is None else dict(mode=mode)
        t = f"{nd}d to {forms}, mode {mode}, {kind}"

        def hint(mv):
            return dict(shape=[mv(o) for o in old], new=mv(N[0]) if forms in ("int", "npint") else None if forms == "fast" else
                        [mv(N[d]) if f == "n" else None for d, f in enumerate(forms)], mode=mode, seed=1, npint=forms == "npint")
        for p in s.paths(lambda: u.fft_pad(x, arg, **kw), pre):
            if not s.returns(f"returns ({t})", p):
                continue
            sh = [half(n) - half(o) for n, o in zip(new, old)]
            idx = [T.mono1(T.fresh("i", "I")) for _ in old]
            s.array(f"shape and data ({t})", p.facts, p.result, new,
                    lambda *i: sym.eite(band(*[band(le(0, a - k), lt(a - k, o)) for a, k, o in zip(i, sh, old)]),
                                   x.orig(tuple(a - k for a, k in zip(i, sh))),
                                   num(0) if mode == "constant" else sym.asarr(p.result).get(list(i))), model_hint=hint)
            s.unchanged(f"argument is not modified ({t})", p.facts, x)
        # and back: directly for one axis, by the contract just proved for several (one lemma per axis below)
        if nd == 1:
            grow = [le(o, n) for o, n in zip(old, new)]
            for p in s.paths(lambda: u.fft_pad(u.fft_pad(x, arg, **kw), tuple(pyint(o) for o in old), **kw), pre + grow):
                if s.returns(f"back returns ({t})", p):
                    s.array(f"going back gives the data ({t})", p.facts, p.result, old, lambda *i: x.orig(i), model_hint=hint)

    def back():
        """Going back composes two instances of the contract: sample i comes from i - k2 of the padded array, which lies
        inside it, and that came from sample (i - k2) - k1 = i."""
        o, n, i = O[0], N[0], ivar("i")
        k1, k2 = half(n) - half(o), half(o) - half(n)
        f = P.Facts([le(1, o), le(o, n), le(0, i), lt(i, o)])
        s.prove("lemma: going back reads inside the padded array", band(le(0, i - k2), lt(i - k2, n)), f)
        s.prove("lemma: which holds sample i there", band(eq(i - k2 - k1, i), le(0, i - k2 - k1), lt(i - k2 - k1, o)), f)

    def main(mode):
        s.under("utils.fft_pad", "utils._padding_slices", "utils._calc_pad", "utils._calc_crop")
        forms = ["n", "nn"]
        if mode == "constant" or s.tier == "thorough":
            forms += ["int", "npint", "fast", "n-", "-n", "int2", "npint2", "fast2", "nnn"]
        if s.tier == "thorough":
            forms += ["-nn", "n-n", "nn-", "fast3", "int3"]
        for f in forms:
            nd = int(f[-1]) if f[-1].isdigit() else (1 if f in ("int", "npint", "fast") else len(f))
            pad(nd, f.rstrip("23"), mode)
        if mode == "constant":
            pad(2, "nn", mode, "i")
            pad(2, "nn", mode, "c")
    for mode in ("constant", None, "edge", "mean", "wrap"):
        s.guard(f"fft_pad ({mode})", lambda: main(mode))

    s.guard("fft_pad and back", back)

    def lst():
        s.under("utils.fft_pad")
        x = inarr("data", (O[0], O[1]))
        for p in s.paths(lambda: u.fft_pad(x, [pyint(N[0]), None]), [le(1, O[0]), le(1, O[1]), le(1, N[0])]):
            if s.returns("returns (list)", p):
                r = p.result
                s.prove("shape (list)", band(eq(r._shape[0], N[0]), eq(r._shape[1], O[1])), p.facts)
    s.guard("fft_pad (list)", lst)
    s.assume("1, 2 and 3 axes (fft_pad treats axes independently); sizes are at least 1")
    s.lemma("scipy.fftpack.next_fast_len(n) is an integer of at least n that depends on n alone")
