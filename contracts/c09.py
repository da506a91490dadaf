"""Parameters of both models: what is accepted, what is rejected, and that a rejection changes nothing (otf, utils)."""
import numpy as np
from pv.contract import *
from .optics import *

NUMS = ("wl", "na", "ni", "res", "size", "zres", "zsize")
SIZES = ("size", "zsize")
OTHER = {"vec_corr": ("foo", "", "XY", "X", "Total", "tota", "None", "all", 1, None, ("x",)),
         "condition": ("foo", "", "Sine", "abbe", "herschels", "None", 1, None, ("sine",)),
         "dual": (1, 0, None, "yes", 1.0)}
WRONG = ("1", None, [1.0], 2j, (1,), {})


class Any:
    """A value of a type of its own that equals nothing else."""

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<any other value>"


def params(tag=""):
    """Parameters of any sign."""
    return {k: (ivar if k in SIZES else rvar)(k + tag) for k in NUMS}


def good(k, v, p, cls):
    """Is v acceptable for the parameter k of a model whose other parameters are p?"""
    c = [lt(0, v)]
    if k == "res":
        c.append(lt(2 * v * p["na"], p["wl"]))
    if k == "zres" and cls == "SheppardPSF":
        c.append(lt(2 * v * p["ni"], p["wl"]))
    return band(*c)


def py(k, v, form="f"):
    return pyint(v) if k in SIZES or form == "i" else pyfloat(v)


def contract(s):
    w = s.world()
    otf = w.module("otf")
    UNDER = ("utils.NumericProperty.__init__", "otf.BasePSF.__init__", "otf.BasePSF.res", "otf.BasePSF.zres", "otf.BasePSF.vec_corr", "otf.BasePSF.condition")

    def names(cls):
        return NUMS + ("vec_corr", "condition") + (("dual",) if cls == "SheppardPSF" else ())

    def read(m, cls):
        out = {k: getattr(m, k) for k in names(cls)}
        if cls == "HanserPSF":
            z = m.zrange
            out["zrange"] = (z, z.buf.fn if isinstance(z, SArr) else None, z._shape if isinstance(z, SArr) else None)
        return out

    def same(s, what, f, a, want):
        """A parameter reads as the given value and type."""
        if isinstance(want, T.Poly):
            ok = isinstance(a, (S, int, float)) and not isinstance(a, bool)
            if s.add(f"{what}: a number", "proved" if ok else "refuted", a):
                s.prove(f"{what}: the value", eq(sym.to_num(val(a)), want), f)
        else:
            s.add(what, "proved" if type(a) is type(want) and a == want else "refuted", f"{a!r} instead of {want!r}")

    def construct(cls, given, form, kw):
        """given: the optional numbers passed; form: type of the numbers."""
        s.under(f"otf.{cls}.__init__", *UNDER)
        p = params()
        if form == "i":
            p = {k: ivar(k) for k in NUMS}
        t = f"{cls}, {'/'.join(given) or 'defaults'}, {form}, {kw or ''}"
        pre = [bnot(eq(p[k], num(0))) for k in ("wl", "na", "ni", "size", "zsize")]
        want = {k: p[k] for k in NUMS}
        want["zres"] = p["zres"] if "zres" in given else p["res"]
        want["zsize"] = p["zsize"] if "zsize" in given else p["size"]
        ok = band(*[good(k, want[k], want, cls) for k in NUMS])

        def run():
            a = {k: py(k, p[k], form) for k in ("wl", "na", "ni", "res", "size") + tuple(given)}
            return read(getattr(otf, cls)(**a, **kw), cls)
        for q in s.paths(run, pre):
            if q.exc is not None:
                s.prove(f"only impossible parameters are rejected ({t})", bnot(ok), q.facts)
                s.add(f"rejected with TypeError or ValueError ({t})", "proved" if isinstance(q.exc, (TypeError, ValueError)) else s.reached(q), repr(q.exc))
            else:
                s.prove(f"every impossible parameter is rejected ({t})", ok, q.facts)
                for k in NUMS:
                    same(s, f"{k} reads as given ({t})", q.facts, q.result[k], want[k])
                d = dict(vec_corr="none", condition="sine", dual=False)
                d.update(kw)
                for k in names(cls)[len(NUMS):]:
                    same(s, f"{k} reads as given ({t})", q.facts, q.result[k], d[k])

    def start(cls, hist, kw):
        """A model, some history, and the parameters it has then."""
        p = {k: (ivar if k in SIZES else rvar)(k) for k in NUMS}
        pre = [band(*[good(k, p[k], p, cls) for k in NUMS]), le(p["na"], p["ni"])]
        if cls == "SheppardPSF":
            pre += [le(3, p["size"]), le(3, p["zsize"])]
        cur = dict(p)
        if "changed" in hist:
            for k in ("zsize", "size", "ni", "na", "wl"):
                cur[k] = (ivar if k in SIZES else rvar)(k + "_2")
                pre += [lt(0, cur[k]), bnot(eq(cur[k], p[k]))]
            # the first pixel size is overwritten: below Nyquist (which is only logged) without loss of generality
            pre.append(lt(4 * p["res"] * p["na"], p["wl"]))
            for k in ("res", "zres"):
                cur[k] = rvar(k + "_2")
                pre.append(good(k, cur[k], cur, cls))

        def make():
            m = getattr(otf, cls)(**{k: py(k, p[k]) for k in NUMS}, **kw)
            if "read" in hist:
                m.PSFi
            if "zrange" in hist:
                m.zrange = inarr("zrange", (cur["zsize"],))
            if "changed" in hist:
                for k in ("zsize", "size", "ni", "na", "wl", "res", "zres"):
                    setattr(m, k, py(k, cur[k]))
            return m
        return make, pre, cur

    def assign(cls, k, form, hist, kw):
        s.under(f"otf.{cls}.{k}", *UNDER)
        make, pre, cur = start(cls, hist, kw)
        v = (ivar if k in SIZES or form == "i" else rvar)("value")
        t = f"{cls}, {k}, {form}, {hist}"
        if k not in ("res", "zres"):
            pre = pre + [bnot(eq(v, num(0)))]

        def run():
            m = make()
            before = read(m, cls)
            try:
                setattr(m, k, py(k, v, form))
            except Exception as e:
                return before, e, read(m, cls)
            return before, None, read(m, cls)
        for q in s.paths(run, pre):
            if not s.returns(f"a model ({t})", q):
                continue
            before, e, after = q.result
            if e is not None:
                s.prove(f"only impossible values are rejected ({t})", bnot(good(k, v, cur, cls)), q.facts)
                s.add(f"rejected with TypeError or ValueError ({t})", "proved" if isinstance(e, (TypeError, ValueError)) else s.reached(q), repr(e))
                untouched(t, q.facts, before, after)
            else:
                s.prove(f"every impossible value is rejected ({t})", good(k, v, cur, cls), q.facts)
                same(s, f"{k} reads as assigned ({t})", q.facts, after[k], v)
                untouched(t, q.facts, before, after, (k, "zrange") if k in ("zsize", "zres") else (k,))

    def untouched(t, f, before, after, but=()):
        for k in before:
            if k in but:
                continue
            a, b = before[k], after[k]
            if k == "zrange":
                if a[0] is b[0] and a[1] is b[1]:
                    s.add(f"zrange reads as before ({t})", "proved")
                elif isinstance(a[0], SArr) and isinstance(b[0], SArr):
                    s.array(f"zrange reads as before ({t})", f, b[0], a[2], lambda i: a[1]((i,)))
                else:
                    s.add(f"zrange reads as before ({t})", "refuted", b)
            elif isinstance(a, (S, int, float)) and not isinstance(a, bool) and isinstance(b, (S, int, float)) and not isinstance(b, bool):
                s.prove(f"{k} reads as before ({t})", eq(sym.to_num(val(a)), sym.to_num(val(b))), f)
            else:
                s.add(f"{k} reads as before ({t})", "proved" if type(a) is type(b) and a == b else "refuted", f"{b!r} instead of {a!r}")

    def wrong(cls, k, v, hist, kw):
        """A value of a wrong type or an unknown name, passed to the constructor and assigned."""
        s.under(f"otf.{cls}.{k}", *UNDER)
        make, pre, cur = start(cls, hist, kw)
        x = v() if callable(v) and not isinstance(v, Any) else v
        t = f"{cls}, {k} = {x!r}, {hist}"
        p = {q: py(q, (ivar if q in SIZES else rvar)(q)) for q in NUMS}

        def run():
            a = dict(p, **kw)
            a[k] = x
            try:
                getattr(otf, cls)(**a)
                e1 = None
            except Exception as e:
                e1 = e
            m = make()
            before = read(m, cls)
            try:
                setattr(m, k, x)
                e2 = None
            except Exception as e:
                e2 = e
            return before, e1, e2, read(m, cls)
        for q in s.paths(run, pre):
            if s.returns(f"a model ({t})", q):
                before, e1, e2, after = q.result
                for e, what in ((e1, "by the constructor"), (e2, "when assigned")):
                    if e is e1 and x is None and k in ("zres", "zsize"):
                        continue        # None stands for the default there
                    s.add(f"rejected {what} ({t})", "proved" if isinstance(e, (TypeError, ValueError)) else s.reached(q), repr(e))
                untouched(t, q.facts, before, after)

    def names_ok(cls, k, v, hist):
        s.under(f"otf.{cls}.{k}", *UNDER)
        make, pre, cur = start(cls, hist, {})

        def run():
            m = make()
            before = read(m, cls)
            setattr(m, k, v)
            return before, read(m, cls)
        t = f"{cls}, {k} = {v!r}, {hist}"
        for q in s.paths(run, pre):
            if s.returns(f"accepted ({t})", q):
                same(s, f"reads as assigned ({t})", q.facts, q.result[1][k], v)
                untouched(t, q.facts, *q.result, (k,))

    HIST = ((), ("read",), ("changed",), ("read", "changed"))
    for cls in ("HanserPSF", "SheppardPSF"):
        i = 0
        for given in ((), ("zres",), ("zsize",), ("zres", "zsize")):
            for form in "fi":
                kw = dict(vec_corr=VEC[i % 5], condition=COND[i % 3]) if i % 2 else {}
                if cls == "SheppardPSF" and i % 3 == 1:
                    kw["dual"] = i % 2 == 0
                s.guard(f"constructor, {cls}, {given}, {form}", lambda: construct(cls, given, form, kw))
                i += 1
        for k in NUMS:
            for form in "f" if k in SIZES else "fi":
                for h in HIST + ((("zrange", "changed"), ("zrange",)) if cls[0] == "H" else ()):
                    s.guard(f"assign, {cls}, {k}, {form}, {h}", lambda: assign(cls, k, form, h, {}))
            bad = WRONG + (Any(),)
            if k in SIZES:
                bad = bad + (lambda: pyfloat(rvar("x")), lambda: S(ivar("x"), DT["i"], False), 8.0)
            elif k not in ("res", "zres"):
                bad = bad + (lambda: S(ivar("x"), DT["i"], False),)
            for j, v in enumerate(bad):
                s.guard(f"wrong type, {cls}, {k}, {j}", lambda: wrong(cls, k, v, HIST[j % 4], {}))
        for k in ("vec_corr", "condition") + (("dual",) if cls == "SheppardPSF" else ()):
            for j, v in enumerate(OTHER[k] + (Any(),)):
                s.guard(f"unknown name, {cls}, {k}, {j}", lambda: wrong(cls, k, v, HIST[j % 4], {}))
            for j, v in enumerate(dict(vec_corr=VEC, condition=COND, dual=(True, False))[k]):
                s.guard(f"known name, {cls}, {k}, {v}", lambda: names_ok(cls, k, v, HIST[j % 4]))
