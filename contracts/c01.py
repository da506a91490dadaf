"""noll2degrees and degrees2noll (zernike)."""
from pv.contract import *


def noll_order(jmax):
    """Noll 1976: orders ascending, |m| never decreasing within an order, even j for m > 0 (cosine), odd j for m < 0."""
    out, j, n = {}, 1, 0
    while j <= jmax:
        for k in range(n + 1):
            am = k + (k % 2 != n % 2)          # |m| of the k-th mode of order n: same parity as n, each twice
            out[j] = (n, am if j % 2 == 0 else -am)
            j += 1
        n += 1
    return {j: v for j, v in out.items() if j <= jmax}


NOLL = noll_order(120)
assert len(set(NOLL.values())) == 120 and all(n >= abs(m) and (n - m) % 2 == 0 for n, m in NOLL.values())


def contract(s):
    w = s.world()
    z = w.module("zernike")
    N = [ivar("s0"), ivar("s1"), ivar("s2")]
    shapes = [(), (N[0],), (N[0], N[1]), (N[0], N[1], N[2])]

    def forward(kind, name):
        s.under("zernike.noll2degrees", "zernike.noll_mapping", "zernike.noll_inverse")
        for sh in shapes:
            x = inarr("noll", sh, dtype=np_dtype(name))
            el = elem("noll", "i", x.dtype)
            fa = [T.lam(list(sh), lambda i: [band(le(1, el(*i)), le(el(*i), 120))])]
            t = f"{len(sh)}d {name}"
            for p in s.paths(lambda: z.noll2degrees(x), [le(1, n) for n in sh], fa):
                if not s.returns(f"returns ({t})", p):
                    continue
                r = p.result
                if not s.add(f"two arrays ({t})", "proved" if isinstance(r, tuple) and len(r) == 2 else "refuted"):
                    continue
                idx = [ivar(f"k{d}") for d in range(len(sh))]
                f = P.Facts(p.facts.bs + [le(0, i) for i in idx] + [lt(i, n) for i, n in zip(idx, sh)], p.facts.foralls)
                a = el(*idx)
                got = []
                for q, nm in zip(r, "nm"):
                    q = sym.asarr(q)
                    ok = s.add(f"{nm} has the input's shape ({t})", "proved" if len(q._shape) == len(sh) and
                               all(u is v for u, v in zip(q._shape, sh)) else "unknown", q._shape)
                    s.add(f"{nm} is an integer ({t})", "proved" if q.dtype.kind == "i" else "refuted", q.dtype)
                    got.append(q.get(idx) if ok else None)
                if any(g is None for g in got):
                    continue
                for j, want in NOLL.items():
                    sub = {a.atom().id: num(j)}
                    for g, v, nm in zip(got, want, "nm"):
                        e = T.replace(g, sub)
                        if other_inputs(e, "noll"):
                            s.add(f"{nm} of index {j} depends on its own element only ({t})", "unknown", short(e))
                        else:
                            s.equal(f"{nm} of Noll index {j} ({t})", e, num(v), P.Facts([]), lambda mv: dict(kind="table"))
                s.unchanged(f"argument is not modified ({t})", p.facts, x)
    s.guard("noll2degrees", lambda: forward("i", "int64"))
    s.guard("noll2degrees (int32)", lambda: forward("i", "int32"))

    def scalars():
        s.under("zernike.noll2degrees")
        j = ivar("j")
        for p in s.paths(lambda: z.noll2degrees(pyint(j)), [le(1, j), le(j, 120)]):
            if s.returns("returns (scalar)", p):
                for k, want in NOLL.items():
                    for q, v, nm in zip(p.result, want, "nm"):
                        q = sym.asarr(q)
                        s.equal(f"{nm} of Noll index {k} (scalar)", T.replace(q.get([]), {j.atom().id: num(k)}), num(v), P.Facts([]),
                                lambda mv: dict(kind="table"))
    s.guard("noll2degrees (scalar)", scalars)

    def backward():
        s.under("zernike.degrees2noll")
        for sh in shapes:
            n, m = inarr("n", sh, "i"), inarr("m", sh, "i")
            en, em = elem("n", "i"), elem("m", "i")

            def valid(i):
                a, b, q = en(*i), em(*i), T.app("half", tuple(i), "I")
                return [band(le(0, a), le(a, 14), le(b, a), le(-a, b), eq(a - b, 2 * q))]
            fa = [T.lam(list(sh), valid)]
            t = f"{len(sh)}d"
            for p in s.paths(lambda: z.degrees2noll(n, m), [le(1, v) for v in sh], fa):
                idx = [ivar(f"k{d}") for d in range(len(sh))]
                if not s.returns(f"returns ({t})", p):
                    continue
                q = sym.asarr(p.result)
                if not s.add(f"the index has the input's shape ({t})", "proved" if len(q._shape) == len(sh) and
                             all(u is v for u, v in zip(q._shape, sh)) else "unknown", q._shape):
                    continue
                with ctx.at(P.Facts(p.facts.bs + [le(0, i) for i in idx] + [lt(i, v) for i, v in zip(idx, sh)], p.facts.foralls)):
                    g = q.get(idx)
                for j, (vn, vm) in NOLL.items():
                    e = T.replace(g, {en(*idx).atom().id: num(vn), em(*idx).atom().id: num(vm)})
                    if other_inputs(e, "n") or other_inputs(e, "m"):
                        s.add(f"the index of {vn}, {vm} depends on its own elements only ({t})", "unknown", short(e))
                    else:
                        s.equal(f"index of degrees {vn}, {vm} ({t})", e, num(j), P.Facts([]), lambda mv: dict(kind="table"))
                s.unchanged(f"arguments are not modified ({t})", p.facts, n, m)
    s.guard("degrees2noll", backward)

    def bscalars():
        s.under("zernike.degrees2noll")
        a, b, h = ivar("a"), ivar("b"), ivar("h")
        for p in s.paths(lambda: z.degrees2noll(pyint(a), pyint(b)), [le(0, a), le(a, 14), le(b, a), le(-a, b), eq(a - b, 2 * h)]):
            if s.returns("returns (scalar)", p):
                g = sym.asarr(p.result).get([])
                for j, (vn, vm) in NOLL.items():
                    s.equal(f"index of degrees {vn}, {vm} (scalar)", T.replace(g, {a.atom().id: num(vn), b.atom().id: num(vm)}), num(j),
                            P.Facts([]), lambda mv: dict(kind="table"))
    s.guard("degrees2noll (scalar)", bscalars)

    def bad():
        s.under("zernike.noll2degrees")
        for sh in shapes:
            idx = [ivar(f"k{d}") for d in range(len(sh))]
            inr = [le(0, i) for i in idx] + [lt(i, v) for i, v in zip(idx, sh)]
            x = inarr("noll", sh, "i")
            for p in s.paths(lambda: z.noll2degrees(x), inr + [le(elem("noll", "i")(*idx), 0)]):
                s.raises(f"an index that is not positive is rejected ({len(sh)}d)", p, Exception)
            for dt in ("float64", "uint8", "uint64", "bool"):
                y = inarr("y", sh, dtype=np_dtype(dt))
                for p in s.paths(lambda: z.noll2degrees(y), [le(1, v) for v in sh]):
                    s.raises(f"indices of type {dt} are rejected ({len(sh)}d)", p, Exception)
            s.under("zernike.degrees2noll")
            n, m = inarr("n", sh, "i"), inarr("m", sh, "i")
            a, b, h = elem("n", "i")(*idx), elem("m", "i")(*idx), ivar("h")
            for nm, cond in (("that differ by an odd number", [eq(a - b, 2 * h + 1)]), ("with m > n", [lt(a, b)]), ("with -m > n", [lt(a, -b)])):
                for p in s.paths(lambda: z.degrees2noll(n, m), inr + cond):
                    s.raises(f"degrees {nm} are rejected ({len(sh)}d)", p, Exception)
            for dt in ("float64", "uint8", "bool"):
                y = inarr("y", sh, dtype=np_dtype(dt))
                for nm, call in (("radial", lambda: z.degrees2noll(y, m)), ("azimuthal", lambda: z.degrees2noll(n, y))):
                    for p in s.paths(call, [le(1, v) for v in sh]):
                        s.raises(f"{nm} degrees of type {dt} are rejected ({len(sh)}d)", p, Exception)
            s.under("zernike.noll2degrees")
    s.guard("rejections", bad)
    s.assume("arrays of 0 to 3 axes; sizes and elements arbitrary (indices up to 120, the end of the library's table)")


def np_dtype(name):
    import numpy
    return numpy.dtype(name)


def other_inputs(e, name):
    return any(T.ATOMS[a].kind == "app" and T.ATOMS[a].name.split(":")[0] == name for a in P._all_atoms(e))
