"""bin_ndarray (utils)."""
from pv.contract import *


def contract(s):
    w = s.world()
    bn = w.module("utils").bin_ndarray
    N = [ivar(f"n{d}") for d in range(3)]
    B = [ivar(f"b{d}") for d in range(3)]
    R = [ivar(f"r{d}") for d in range(3)]

    def blocksum(x, new, b, mean):
        def spec(*i):
            parts = x.orig(tuple(num(0) for _ in new))
            cx = isinstance(parts, tuple)

            def part(k):
                def el(v):
                    e = x.orig(tuple(a * q + c for a, q, c in zip(i, b, v)))
                    return e[k] if cx else e
                return T.ssum(list(b), el)
            vol = num(1)
            for q in b:
                vol = vol * q
            f = T.inv(vol) if mean else num(1)
            return (part(0) * f, part(1) * f) if cx else part(0) * f
        return spec

    def run(nd, how, op, kind):
        n, b, r = N[:nd], B[:nd], R[:nd]
        pre = [le(1, v) for v in n + b]
        if how == "scalar":
            b = [B[0]] * nd
            pre = [le(1, v) for v in n] + [le(1, B[0])]
        if how == "shape":
            old = [x * y for x, y in zip(n, b)]
        else:
            old = [x * y + z for x, y, z in zip(n, b, r)]
            pre += [le(0, z) for z in r] + [lt(z, y) for z, y in zip(r, b)]
        x = inarr("data", old, kind)
        kw = {}
        if how == "shape":
            kw["new_shape"] = tuple(pyint(v) for v in n)
        elif how == "scalar":
            kw["bin_size"] = pyint(B[0])
        else:
            kw["bin_size"] = tuple(pyint(v) for v in b)
        if op:
            kw["operation"] = op
        t = f"{nd}d, {how}, {op}, {kind}"

        def hint(mv):
            return dict(shape=[mv(o) for o in old], new=[mv(v) for v in n] if how == "shape" else None,
                        bin=None if how == "shape" else mv(B[0]) if how == "scalar" else [mv(v) for v in b], op=op,
                        dtype=dict(f="float", i="int", c="complex")[kind], seed=1)
        for p in s.paths(lambda: bn(x, **kw), pre):
            if s.returns(f"returns ({t})", p):
                s.array(f"{op or 'sum'} of each block ({t})", p.facts, p.result, n,
                        blocksum(x, n, b, (op or "sum").lower() == "mean"), model_hint=hint)
                s.unchanged(f"argument is not modified ({t})", p.facts, x)

    def ok():
        s.under("utils.bin_ndarray")
        for nd in (1, 2, 3):
            for how in ("shape", "bins", "scalar"):
                for op in (None, "sum", "mean") if nd < 3 else ("sum", "mean"):
                    run(nd, how, op, "f")
        run(2, "shape", "MEAN", "f")
        run(2, "bins", "Sum", "i")
        run(2, "bins", "mean", "c")
        run(2, "scalar", "mean", "i")
    s.guard("bin_ndarray", ok)

    def bad():
        s.under("utils.bin_ndarray")
        for nd in (1, 2, 3):
            old = [ivar(f"o{d}") for d in range(nd)]
            x = inarr("data", old)
            pre = [le(1, o) for o in old]
            new = tuple(pyint(v) for v in N[:nd])
            pn = pre + [le(1, v) for v in N[:nd]]

            def err(name, call, pr, types=(ValueError, TypeError)):
                for p in s.paths(call, pr):
                    s.raises(f"{name} ({nd}d)", p, types)
            err("neither shape nor bin size is rejected", lambda: bn(x), pre)
            for op in ("median", "max", "std", "prod", "", "sums", "mean "):
                err(f"operation {op!r} is rejected", lambda: bn(x, new_shape=new, operation=op), pn)
            err("too many sizes are rejected", lambda: bn(x, new_shape=new + (1,)), pn)
            err("too many sizes are rejected (first)", lambda: bn(x, new_shape=(1,) + new), pn)
            if nd > 1:
                err("too few sizes are rejected", lambda: bn(x, new_shape=new[1:]), pn)
            for k in range(nd):
                # axis k does not divide, the others may or may not
                q, rr = ivar("q"), ivar("rem")
                o2 = list(old)
                o2[k] = q * N[k] + rr
                y = inarr("data", o2)
                err(f"a size that does not divide axis {k} is rejected", lambda: bn(y, new_shape=new),
                    pn + [lt(0, rr), lt(rr, N[k]), le(0, q)])
    s.guard("bin_ndarray (rejections)", bad)
    s.assume("1, 2 and 3 axes; the unknown operation names are seven representatives")
