"""Energy of HanserPSF: Parseval's theorem applied to the transforms the code itself takes, and a pointwise identity."""
from pv.contract import *
from .optics import *


def transforms(e):
    """An intensity as the sum of c |t|^2 over transforms t: list of (c, op atom), or None when it is not of that form."""
    parts = {}
    for mono, c in e.m:
        if len(mono) != 1 or mono[0][1] != 2:
            return None
        A = T.ATOMS[mono[0][0]]
        if A.kind != "op" or A.name not in ("dft", "idft"):
            return None
        k = (A.name, A.args[0].key(), tuple(x.id for x in A.args[1:]))
        parts.setdefault(k, {})[A.params[1]] = (c, A)
    out = []
    for v in parts.values():
        if set(v) != {0, 1} or v[0][0] != v[1][0]:
            return None
        out.append(v[0])
    return out


def contract(s):
    w = s.world()
    H = w.module("otf").HanserPSF
    P_ = Par()
    m = ivar("m")
    zr = elem("zrange")

    def go(zk, vec, cond, pupil):
        s.under("otf.HanserPSF._gen_psf", "otf.HanserPSF._gen_kr", "otf.HanserPSF._gen_pupil", "otf.HanserPSF._calc_defocus",
                "otf.HanserPSF.apply_pupil", "otf.HanserPSF.PSFi", "otf.BasePSF.PSFi")
        t = f"{zk}, {vec}, {cond}, pupil {pupil}"
        if zk == "default":
            kw, pre, nz = P_.kz(), P_.prez, P_.nz
        else:
            kw, pre, nz = dict(zrange=inarr("zrange", (m,))), [le(1, m)], m
        n = P_.n
        kmax = P_.ni * T.inv(P_.wl)

        def radius(u, v):
            ky, kx = freq(u, n, P_.res), freq(v, n, P_.res)
            return T.sqrt(kx * kx + ky * ky)
        pe = elem("pupil", "c")
        ph = elem("phase")

        def pf(u, v):
            """The pupil without the pure phase, confined to the sphere."""
            inside = lt(radius(u, v), P_.na * T.inv(P_.wl) if pupil == "disk" else kmax)
            a = (num(1), num(0)) if pupil == "disk" else pe(u, v)
            return tuple(ite(inside, x, num(0)) for x in a)
        arr = None
        if pupil != "disk":
            def el(idx):
                r = pf(*idx)
                if pupil == "complex":
                    return r
                c, q = T.cos(ph(*idx)), T.sin(ph(*idx))
                return (r[0] * c - r[1] * q, r[0] * q + r[1] * c)
            arr = SArr(el, (n, n), DT["c"])
            arr.orig = el

        def run():
            psf = H(vec_corr=vec, condition=cond, **P_.kw(**kw))
            if arr is not None:
                psf.apply_pupil(arr)
            return psf.PSFi
        for p in s.paths(run, P_.pre + pre):
            if not s.returns(f"PSFi can be read ({t})", p):
                continue
            r = p.result
            z, z2, y, x, y2, x2, u, v = [ivar(k) for k in ("z", "z2", "y", "x", "y2", "x2", "u", "v")]
            if not isinstance(r, SArr) or r.ndim != 3:
                s.add(f"PSFi is a stack ({t})", "refuted", r)
                continue
            if not all([s.prove(f"size of axis {d} ({t})", eq(q, q2), p.facts) for d, (q, q2) in enumerate(zip(r._shape, (nz, n, n)))]):
                continue
            rng = [le(0, z), lt(z, nz), le(0, z2), lt(z2, nz)]
            for k in (y, x, y2, x2, u, v):
                rng += [le(0, k), lt(k, n)]
            f = P.Facts(p.facts.bs + rng, p.facts.foralls)
            with ctx.at(f) as c:
                e = r.get([z, y, x])
                e = P.tidy(e, c.facts) if not isinstance(e, tuple) else e
                f = c.facts
            ts = transforms(e) if isinstance(e, T.Poly) else None
            if ts is None:
                s.add(f"the intensity is a sum of squared transforms ({t})", "unsupported", short(e))
                continue
            tot = num(0)
            at2 = {z.atom().id: z2}
            for k, (cf, A) in enumerate(ts):
                L, idx = A.args[0], A.args[1:]
                if len(L.sizes) != 2 or any(q in L.fv for q in (y.atom().id, x.atom().id)):
                    raise Unsupported("transforms over other axes")
                for d, q in enumerate(L.sizes):
                    s.prove(f"transform {k} is over the pupil, axis {d} ({t})", eq(q, n), f)
                there = [T.subst(q, {y.atom().id: y2, x.atom().id: x2}) for q in idx]
                s.prove(f"transform {k}: samples in range ({t})", band(*[band(le(0, q), lt(q, n)) for q in idx]), f)
                s.prove(f"transform {k}: every sample once ({t})", implies(band(*[eq(a, b) for a, b in zip(idx, there)]), band(eq(y, y2), eq(x, x2))), f)
                with ctx.at(f):
                    re, im = L.open([u, v])
                tot = tot + cf * (re * re + im * im) * (num(1) if A.name == "idft" else T.power(n, 4))
            # by Parseval the lateral sum of the plane is now the mean of tot over the pupil's pixels
            with ctx.at(f):
                s.equal(f"the same energy in every plane, pixel by pixel ({t})", tot, T.subst(tot, at2), f)
                if vec in ("none", "total"):
                    sint = radius(u, v) * T.inv(kmax)
                    cost = T.sqrt(num(1) - sint * sint)
                    a2 = {"none": num(1), "sine": T.inv(cost), "herschel": T.inv(cost * cost)}[cond]
                    q = pf(u, v)
                    inside = lt(radius(u, v), P_.na * T.inv(P_.wl) if pupil == "disk" else kmax)
                    lem = le(num(0), num(1) - sint * sint)
                    if not s.prove(f"lemma: the cosine is real inside ({t})", lem, P.Facts(f.bs + [inside], f.foralls)):
                        continue
                    f = P.Facts(f.bs + [implies(inside, lem)], f.foralls)
                    want = (q[0] * q[0] + q[1] * q[1]) * ite(lt(sint, num(1)), a2, num(0)) * (2 if vec == "total" else 1)
                    s.equal(f"and it is the pupil's, times the apodization ({t})", tot, want, f)

    for zk in ("default", "array"):
        for vec in VEC:
            for cond in COND:
                for pupil in ("disk", "complex", "phase"):
                    if zk == "array" and (cond != "sine" or pupil != "complex"):
                        continue
                    s.guard(f"energy ({zk}, {vec}, {cond}, {pupil})", lambda: go(zk, vec, cond, pupil))
    s.lemma("Parseval: the sum of |inverse DFT|^2 over all samples is the mean of |x|^2, over any rearrangement of the samples")
