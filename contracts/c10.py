"""Outputs of a model after any history (otf): an induction over the operations on a model.

A state of a model is described by its parameters, the pupil applied last (if any), and the set of outputs that are cached with the
values that a model freshly built with the same parameters (and given the same pupil) yields.  Every operation is run from every such
state, with symbolic parameters; whatever else the object remembers is replaced by values that must not be read.  The state afterwards
is again of this form, with the outputs of the new parameters, so by induction it is after any history."""
import copy
import itertools
from pv.contract import *
from .optics import *
from .c09 import good, py, NUMS, SIZES
from .c16 import Poison

OUT = ("PSFa", "PSFi", "OTFa", "OTFi")
SUBSETS = [c for n in range(5) for c in itertools.combinations(OUT, n)]


def contract(s):
    w = s.world()
    otf = w.module("otf")

    def cls_of(name):
        return getattr(otf, name)

    class St:
        """A symbolic state."""

        def __init__(self, cls, vec, cond, extra, pupil, cached):
            self.cls, self.vec, self.cond, self.extra, self.pupil, self.cached = cls, vec, cond, extra, pupil, cached
            self.p = {k: (ivar if k in SIZES else rvar)(k) for k in NUMS}
            p = self.p
            # below the Nyquist limit there is one log message less: the state is the same
            self.pre = [band(*[good(k, p[k], p, cls) for k in NUMS]), le(p["na"], p["ni"]), lt(4 * p["res"] * p["na"], p["wl"])]
            if cls == "SheppardPSF":
                self.pre += [le(3, p["size"]), le(3, p["zsize"])]
            self.text = f"{cls}, {vec}, {cond}, {extra}, {'pupil, ' if pupil else ''}cached: {'/'.join(cached) or 'none'}"
            self.nz = ivar("nz") if extra == "zrange" else p["zsize"]
            if extra == "zrange":
                self.pre.append(le(1, self.nz))
            self.pup = inarr("pupil", (p["size"], p["size"]), "c") if pupil else None

        def make(self):
            kw = {k: py(k, self.p[k]) for k in NUMS}
            if self.extra == "zrange":
                kw["zrange"] = inarr("zrange", (self.nz,))
            elif self.extra == "dual":
                kw["dual"] = True
            m = cls_of(self.cls)(vec_corr=self.vec, condition=self.cond, **kw)
            base = set(m.__dict__)
            if self.pupil:
                m.apply_pupil(self.pup)
            if self.pupil or self.cached:
                outs = {o: getattr(m, o) for o in OUT}
                for k in set(m.__dict__) - base:
                    o = [n for n in OUT if m.__dict__[k] is outs[n]]
                    if not o:
                        m.__dict__[k] = Poison()
                    elif o[0] not in self.cached:
                        del m.__dict__[k]
            return m

    def read(m):
        out = {k: getattr(m, k) for k in NUMS + ("vec_corr", "condition")}
        if isinstance(m, otf.SheppardPSF):
            out["dual"] = m.dual
        return out

    def fresh(m, pupil=None):
        """A model built with the current parameters of m."""
        kw = read(m)
        if isinstance(m, otf.HanserPSF):
            kw["zrange"] = m.zrange
        f = type(m)(**kw)
        if pupil is not None:
            f.apply_pupil(pupil)
        return f

    def same(name, f, a, b):
        if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim:
            return s.array(name, f, a, b._shape, lambda *i: b.get(i), kind=b.dtype.kind)
        return s.add(name, "refuted", f"{a!r} and {b!r}")

    def equals(f, a, b):
        """Silent comparison."""
        i = [T.mono1(T.fresh("i", "I")) for _ in a._shape]
        f = P.Facts(f.bs + [le(0, x) for x in i] + [lt(x, n) for x, n in zip(i, a._shape)], f.foralls)
        with ctx.at(f) as c:
            return P.prove_eq(a.get(i), b.get(i), c.facts) == "proved"

    def seen(m, pupil, either=False, order=OUT):
        """What is read from the model, and what it should be (inside a path: reading may branch)."""
        got = {o: getattr(m, o) for o in order}
        want = []
        for pu in ([None] if pupil is None else [pupil, None] if either else [pupil]):
            f = fresh(m, pu)
            want.append({o: getattr(f, o) for o in order})
        return got, want

    def outputs(t, q, pair):
        """Every output is that of a fresh model (with the pupil, if one is applied)."""
        got, want = pair
        w = want[0]
        if len(want) > 1 and not equals(q.facts, got["PSFa"], w["PSFa"]):
            w = want[1]
        for o in got:
            same(f"{o} is that of a fresh model ({t})", q.facts, got[o], w[o])

    def parameters(t, f, m, want):
        got = read(m)
        for k, v in want.items():
            if isinstance(v, (S, int, float)) and not isinstance(v, bool):
                if s.add(f"{k} is a number ({t})", "proved" if isinstance(got[k], (S, int, float)) else "refuted", got[k]):
                    s.prove(f"{k} reads as it should ({t})", eq(sym.to_num(val(got[k])), sym.to_num(val(v))), f)
            else:
                s.add(f"{k} reads as it should ({t})", "proved" if type(got[k]) is type(v) and got[k] == v else "refuted", f"{got[k]!r} instead of {v!r}")

    def zr(t, f, m, n, at):
        if isinstance(m, otf.HanserPSF):
            if s.add(f"zrange is an array ({t})", "proved" if isinstance(m.zrange, SArr) else "refuted"):
                s.array(f"zrange ({t})", f, m.zrange, (n,), at)

    def default_zat(d):
        mid = T.fdiv(d["zsize"], num(2))
        return d["zsize"], lambda i: (i - mid) * d["zres"]

    def assign(st, a, j):
        """Assignment of any acceptable value to a parameter."""
        s.under(f"otf.{st.cls}.{a}", "otf.BasePSF._attribute_changed", f"otf.{st.cls}.PSFa", f"otf.{st.cls}.OTFa", "otf.BasePSF.PSFi", "otf.BasePSF.OTFi",
                "utils.NumericProperty.__init__", *(["otf.HanserPSF._gen_zrange", "otf.HanserPSF.apply_pupil"] if st.cls[0] == "H" else []))
        t = f"{a}, {st.text}"
        want = {k: py(k, st.p[k]) for k in NUMS}
        want.update(vec_corr=st.vec, condition=st.cond)
        if st.cls == "SheppardPSF":
            want["dual"] = st.extra == "dual"
        pre = list(st.pre)
        arg = None
        if a in NUMS:
            v = (ivar if a in SIZES else rvar)("value")
            p2 = dict(st.p, **{a: v})
            pre += [band(*[good(k, p2[k], p2, st.cls) for k in NUMS]), le(p2["na"], p2["ni"]), lt(4 * p2["res"] * p2["na"], p2["wl"])]
            if st.cls == "SheppardPSF":
                pre += [le(3, p2["size"]), le(3, p2["zsize"])]
            mk = lambda: py(a, v)
            want[a] = py(a, v)
        elif a == "zrange":
            n2 = ivar("nz2")
            pre.append(le(1, n2))
            mk = lambda: inarr("zrange2", (n2,))
        else:
            v = dict(vec_corr=VEC, condition=COND, dual=(True, False))[a]
            v = v[j % len(v)]
            mk = lambda: v
            want[a] = v
            t += f", {v}"

        def run():
            m = st.make()
            x = mk()
            setattr(m, a, x)
            if a == "zrange":
                x += 1          # the caller's array is the caller's
            still = a in NUMS and ctx.cur().proves(eq(v, st.p[a]))
            # a parameter that is assigned its own value may or may not forget the pupil
            maybe = still or (a == "vec_corr" and v == st.vec) or (a == "condition" and v == st.cond)
            return m, still, seen(m, st.pup if maybe else None, maybe, OUT[j % 4:] + OUT[:j % 4])
        for q in s.paths(run, pre):
            if not s.returns(f"the assignment is accepted ({t})", q):
                continue
            m, still, pair = q.result
            parameters(t, q.facts, m, want)
            if a == "zrange":
                zr(t, q.facts, m, n2, lambda i: elem("zrange2")(i))
            elif a in ("zsize", "zres"):
                if not still:
                    zr(t, q.facts, m, *default_zat(dict(st.p, **{a: v})))
            elif st.extra == "zrange":
                zr(t, q.facts, m, st.nz, lambda i: elem("zrange")(i))
            else:
                zr(t, q.facts, m, *default_zat(st.p))
            outputs(t, q, pair)

    def reading(st, order):
        s.under(f"otf.{st.cls}.PSFa", f"otf.{st.cls}.OTFa", "otf.BasePSF.PSFi", "otf.BasePSF.OTFi")
        t = f"reading {order[0]}, {st.text}"

        def run():
            m = st.make()
            before = read(m), {k: v for k, v in m.__dict__.items() if k in OUT}, [(v, v.buf.fn) for v in m.__dict__.values() if isinstance(v, SArr)]
            getattr(m, order[0])
            after = read(m), [v.buf.fn is g for v, g in before[2]], {k: m.__dict__.get(k) for k in before[1]}
            return m, before, after, seen(m, st.pup, order=order)
        for q in s.paths(run, st.pre):
            if not s.returns(f"it can be read ({t})", q):
                continue
            m, (want, cached, _), (_, kept, after), pair = q.result
            parameters(t, q.facts, m, want)
            s.add(f"no array of the model is modified ({t})", "proved" if all(kept) else "unknown")
            for k, v in cached.items():
                if after[k] is not None and after[k] is not v:
                    same(f"{k} still reads the same ({t})", q.facts, after[k], v)
            if st.extra == "zrange":
                zr(t, q.facts, m, st.nz, lambda i: elem("zrange")(i))
            else:
                zr(t, q.facts, m, *default_zat(st.p))
            outputs(t, q, pair)

    def pupil(st):
        s.under("otf.HanserPSF.apply_pupil", "otf.HanserPSF._gen_psf")
        t = f"apply_pupil, {st.text}"
        Q = inarr("pupil2", (st.p["size"], st.p["size"]), "c")

        def run():
            m = st.make()
            before = read(m)
            m.apply_pupil(Q)
            return m, before, seen(m, Q)
        for q in s.paths(run, st.pre):
            if s.returns(f"it can be applied ({t})", q):
                m, want, pair = q.result
                parameters(t, q.facts, m, want)
                s.unchanged(f"the pupil is not modified ({t})", q.facts, Q)
                outputs(t, q, pair)

    def bad(st, a):
        s.under(f"otf.{st.cls}.{a}", "otf.BasePSF._attribute_changed")
        t = f"rejected {a}, {st.text}"
        pre = list(st.pre)
        if a in NUMS:
            v = (ivar if a in SIZES else rvar)("value")
            pre += [bnot(good(a, v, st.p, st.cls)), bnot(eq(v, num(0)))]
            mk = lambda: py(a, v)
        else:
            mk = lambda: "foo"

        def run():
            m = st.make()
            before = read(m)
            try:
                setattr(m, a, mk())
            except Exception as e:
                return m, before, e, seen(m, st.pup)
            return m, before, None, None
        for q in s.paths(run, pre):
            if s.returns(f"a model ({t})", q):
                m, want, e, pair = q.result
                if s.add(f"it is rejected ({t})", "proved" if e is not None else s.reached(q)):
                    parameters(t, q.facts, m, want)
                    outputs(t, q, pair)

    def copied(st, a):
        """What is done to a copy does not reach the original, nor the other way round."""
        s.under(f"otf.{st.cls}.{a}")
        t = f"a copy, {a}, {st.text}"
        Q = inarr("pupil2", (st.p["size"], st.p["size"]), "c")
        v = rvar("value")
        p2 = dict(st.p, wl=v)
        pre = st.pre + [band(*[good(k, p2[k], p2, st.cls) for k in NUMS]), lt(4 * p2["res"] * p2["na"], p2["wl"]), bnot(eq(v, st.p["wl"]))]

        def run(which):
            m = st.make()
            m2 = copy.copy(m)
            x, y = (m, m2) if which else (m2, m)
            before = read(y)
            if a == "apply_pupil":
                x.apply_pupil(Q)
            elif a == "wl":
                x.wl = pyfloat(v)
            else:
                x.zsize = 4
            one = seen(x, Q if a == "apply_pupil" else None)
            return y, before, one, seen(y, st.pup)
        for which in (0, 1):
            for q in s.paths(lambda: run(which), pre):
                if s.returns(f"a copy ({t})", q):
                    y, want, one, two = q.result
                    parameters(t, q.facts, y, want)
                    outputs(t + ", the other", q, two)
                    outputs(t, q, one)

    def zrange_forms(cls, form):
        s.under("otf.HanserPSF.zrange")
        st = St(cls, "none", "sine", "default", False, ())
        z = rvar("z"), rvar("z2")

        def run(how):
            v = {"scalar": lambda: pyfloat(z[0]), "list": lambda: [pyfloat(x) for x in z], "tuple": lambda: tuple(pyfloat(x) for x in z), "int": lambda: 0}[form]()
            if how:
                m = st.make()
                m.PSFi
                m.zrange = v
                return m, m.PSFi
            kw = {k: py(k, st.p[k]) for k in NUMS}
            m = cls_of(cls)(vec_corr="none", condition="sine", zrange=v, **kw)
            return m, m.PSFi
        for how in (0, 1):
            t = f"zrange given as {form} {'by assignment' if how else 'to the constructor'}"
            for q in s.paths(lambda: run(how), st.pre):
                if s.returns(f"accepted ({t})", q):
                    m, psf = q.result
                    zs = {"scalar": z[:1], "int": (num(0),)}.get(form, z)
                    zr(t, q.facts, m, num(len(zs)), lambda i: pick(i, list(zs)))
                    s.array(f"PSFi has as many planes ({t})", q.facts, psf, (num(len(zs)), st.p["size"], st.p["size"]), lambda *i: psf.get(i))

    j = 0
    for cls in ("HanserPSF", "SheppardPSF"):
        attrs = NUMS + ("vec_corr", "condition") + (("zrange",) if cls[0] == "H" else ("dual",))
        for extra in (("default", "zrange") if cls[0] == "H" else ("single", "dual")):
            for pup in (False, True) if cls[0] == "H" else (False,):
                for cached in SUBSETS:
                    if pup and "PSFa" not in cached:
                        continue
                    j += 1
                    st = lambda: St(cls, VEC[j % 5], COND[j // 5 % 3], extra, pup, cached)

                    def group():
                        for i, a in enumerate(attrs):
                            assign(St(cls, VEC[(j + i) % 5], COND[(j + i) // 5 % 3], extra, pup, cached), a, j + i // 2)
                    s.guard(f"assignments, {cls}, {extra}, {pup}, {cached}", group)

                    def group2():
                        for i in range(4):
                            reading(St(cls, VEC[(j + i) % 5], COND[(j + i) // 5 % 3], extra, pup, cached), OUT[i:] + OUT[:i])
                        if cls[0] == "H":
                            pupil(st())
                        for i, a in enumerate(attrs[:9]):
                            bad(St(cls, VEC[(j + i) % 5], COND[(j + i) // 5 % 3], extra, pup, cached), a)
                        copied(st(), ("wl", "zsize", "apply_pupil")[j % (3 if cls[0] == "H" else 2)])
                    s.guard(f"reads, pupils, rejections and copies, {cls}, {extra}, {pup}, {cached}", group2)
    for form in ("scalar", "list", "tuple", "int"):
        s.guard(f"zrange as {form}", lambda: zrange_forms("HanserPSF", form))
