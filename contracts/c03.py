"""easy_fft and easy_ifft (utils)."""
from itertools import combinations
from pv.contract import *


def cdft(inverse, f, sh, axes, idx):
    """The specification: DFT of the data read with the origin at n//2, zero frequency stored at n//2."""
    h = [T.fdiv(n, num(2)) for n in sh]

    def g(i):
        return f(tuple(ite(lt(u + h[d], sh[d]), u + h[d], u + h[d] - sh[d]) if d in axes else u for d, u in enumerate(i)))
    k = [ite(le(h[d], u), u - h[d], u - h[d] + sh[d]) if d in axes else u for d, u in enumerate(idx)]
    return symnp.dft_elem(inverse, g, sh, sorted(axes), k)


def contract(s):
    w = s.world()
    u = w.module("utils")
    N = [ivar("n0"), ivar("n1"), ivar("n2"), ivar("n3")]
    cases = []
    for nd in (1, 2, 3):
        cases.append((nd, None))
        for k in range(1, nd + 1):
            for ax in combinations(range(nd), k):
                cases.append((nd, ax))
    cases += [(2, (-1,)), (3, (-2, -1)), (3, (1, 0)), (4, (2, 3)), (3, [1, 2])]

    def one(name, inverse):
        s.under("utils." + name, "utils.easy_fft", "utils.easy_ifft")
        fn = getattr(u, name)
        other = u.easy_ifft if name == "easy_fft" else u.easy_fft
        for nd, ax in cases:
            sh = tuple(N[:nd])
            pre = [le(1, n) for n in sh]
            axes = list(range(nd)) if ax is None else [a % nd for a in ax]

            def hint(mv):
                return dict(shape=[mv(n) for n in sh], axes=None if ax is None else list(ax), seed=1)
            for kind in "cf":
                x = inarr("data", sh, kind)
                t = f"{nd}d, axes {ax}, {'complex' if kind == 'c' else 'real'}"
                for form in ("positional", "keyword"):
                    for p in s.paths(lambda: fn(x, ax) if form == "positional" else (fn(x, axes=ax) if ax is not None else fn(x)), pre):
                        if not s.returns(f"returns ({t})", p):
                            continue
                        s.array(f"centred transform ({t}, {form})", p.facts, p.result, sh,
                                lambda *i: cdft(inverse, x.orig, sh, axes, i), model_hint=hint)
                        s.unchanged(f"argument is not modified ({t})", p.facts, x)
                for p in s.paths(lambda: other(fn(x, axes=ax), axes=ax), pre):
                    if s.returns(f"round trip returns ({t})", p):
                        s.array(f"undone by the other ({t})", p.facts, p.result, sh, lambda *i: x.orig(i), model_hint=hint)
    s.guard("easy_fft", lambda: one("easy_fft", False))
    s.guard("easy_ifft", lambda: one("easy_ifft", True))
    s.lemma("numpy.fft.fftn and ifftn over given axes are the discrete Fourier transform and its inverse (so sample 0 of fftn is the sum)")
    s.assume("1 to 4 axes; every choice of axes for up to 3")
