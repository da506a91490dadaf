"""retrieve_phase: loop contract with the iteration of Hanser et al. as the specification (phaseretrieval)."""
import copy

import numpy as np

from pv.contract import *
from pv import load
from .optics import *

ENTRY = "phaseretrieval.retrieve_phase"


class Poison:
    """A loop-carried variable about which the invariant says nothing: it must not be read."""

    def _no(self, *a, **k):
        raise Unsupported("a variable without an invariant is read")
    __getattr__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __pow__ = __neg__ = __abs__ = __bool__ = __getitem__ = __setitem__ = __len__ = __iter__ = __lt__ = __le__ = __gt__ = _no
    __ge__ = __eq__ = __ne__ = __call__ = __format__ = __index__ = __float__ = __int__ = __array__ = __hash__ = _no


class Invariant:
    """At the start of iteration k every variable that the body changes has a role: the k-th estimate, the one before,
    an error of the one before, the iteration number, or a history whose first k entries are those of the estimates before.
    Roles are found by running the first iteration and one arbitrary later one; then they are proved."""

    def __init__(self, s, spec, cls):
        self.s, self.spec, self.cls = s, spec, cls
        self.roles, self.bad, self.hist = {}, set(), {}
        self.learn = True
        self.mode, self.met = None, False

    # ---- the callee's contract: the amplitude PSF of estimate j is known by that name from here on
    def named(self, r, pupil):
        if self.mode is None or not (isinstance(r, SArr) and r.ndim == 4 and isinstance(pupil, SArr) and pupil.ndim == 2):
            return r
        c = ctx.cur()
        k = self.mode[1]
        p, nz = self.spec.p, self.spec.nz
        for j in [k] if self.mode[0] == "first" else [k, k - 1]:
            if self.agrees_with(pupil, self.spec.confined(j), c):
                break
        else:
            return r
        if not all(c.proves(eq(a, b)) for a, b in zip(r._shape, (num(1), nz, p.n, p.n))) or r.dtype.kind != "c":
            return r
        if not self.learn and not self.s.array("the amplitude PSF of an estimate", c.facts, r, (1, nz, p.n, p.n), self.spec.psfa_formula(j)):
            return r
        return SArr(lambda i: self.spec.A(j, *i[1:]), (num(1), nz, p.n, p.n), r.dtype)

    # ---- the cut
    def begin(self, c, n, state):
        if self.mode is not None or self.met:
            raise Unsupported("a second loop of symbolic length")
        self.met = True
        self.begun = dict(state)
        self.snaps = {k: snapshot(v) for k, v in state.items()}

    def first(self, c, n):
        self.mode = ("first", num(0), n)

    def havoc(self, c, n, k, state):
        self.mode = ("done" if k is n else "later", k, n)
        out = {}
        seen = {}
        for name, role in self.roles.items():
            v = state.get(name)
            if role == "model":
                v.apply_pupil(self.spec.estimate(k - 1))
                v.PSFi
            elif role[0] == "in place":
                if id(v.buf) in seen:
                    continue
                seen[id(v.buf)] = 1
                if role[1] == "history":
                    v.assign(lambda i: lt(i[0], k), lambda i, m=name: T.app("history." + m, (i[0],), "R"))
                else:
                    g = self.spec.value(role[1], k)
                    v.assign(lambda i: T.T, lambda i: g.get(i))
            elif role[0] == "is":
                out[name] = self.spec.value(role[1], k)
            else:
                out[name] = Poison()
        return out

    def kept(self, c, n, k, state):
        try:
            self._kept(c, n, k, state)
        except Unsupported:
            raise
        except Exception as e:
            raise Unsupported(f"loop invariant: {type(e).__name__}: {e}")

    def _kept(self, c, n, k, state):
        first = self.mode[0] == "first"
        now = {m: v for m, v in state.items()}
        if self.learn and first:
            for name, v in now.items():
                if name in self.roles and name not in self.bad:
                    continue
                old = self.begun.get(name)
                role = None
                if isinstance(v, self.cls):
                    role = "model" if v is old else ("dead",)
                elif v is old:
                    ch = changed(v, self.snaps[name])
                    if ch and isinstance(v, SArr):
                        role = ("in place", self.match(v, c, k, name) or self.unknown(name))
                    elif ch:
                        self.unknown(name)
                else:
                    m = self.match(v, c, k, name)
                    role = ("is", m) if m else ("dead",)
                    if role == ("dead",) and v is not None and not isinstance(v, (S, SArr, int, float, str)):
                        self.unknown(name)
                if role:
                    self.roles[name] = role
            return
        # what has no role must not have changed
        for name, v in now.items():
            role = self.roles.get(name)
            if role is None:
                old = self.begun.get(name)
                if self.learn and name not in self.begun and isinstance(v, (S, SArr, int, float, str)):
                    self.roles[name] = ("dead",)        # bound by this iteration: no later one may read it
                elif v is not old or changed(v, self.snaps.get(name)):
                    self.unknown(name)
            elif role == "model":
                ref = copy.copy(v)
                ref.__dict__ = dict(v.__dict__)
                ref.apply_pupil(self.spec.estimate(k))
                ref.PSFi
                self.same_model(v, ref, c)
            elif role[0] == "in place" and role[1] == "history":
                e = v.get([k])
                if self.learn:
                    m = [q for q in ("mse", "mse_diff", "pupil_diff") if self.same(e, self.spec.entry(q, k), c)]
                    if not first:
                        self.hist.setdefault(name, set(m)).intersection_update(m)
                    continue
                self.s.equal(f"entry {'0' if first else 'k'} of {name} is the {self.what(name)} of that estimate", e, self.spec.entry(self.what(name), k), c.facts)
                if not first:
                    j = T.mono1(T.fresh("j", "I"))
                    f = P.Facts(c.facts.bs + [le(0, j), lt(j, k)], c.facts.foralls)
                    with ctx.at(f):
                        self.s.equal(f"earlier entries of {name} stay", v.get([j]), T.app("history." + name, (j,), "R"), f)
            elif role[0] in ("is", "in place"):
                ok = self.agrees(v, role[1], k, c, None if self.learn else f"{name} becomes the {role[1]}")
                if not ok and self.learn:
                    self.bad.add((name, role[1]))

    def what(self, name):
        h = self.hist.get(name, ())
        if not h:
            return "mse"
        return sorted(h)[0]

    def unknown(self, name):
        raise Unsupported(f"no invariant found for {name}")

    # ---- roles
    def match(self, v, c, k, name):
        for r in ("estimate", "previous estimate", "previous mse", "previous mse_diff", "previous pupil_diff", "iteration", "previous iteration"):
            if (name, r) not in self.bad and self.agrees(v, r, k, c):
                return r
        if isinstance(v, SArr) and v.ndim == 1 and v.dtype.kind == "f" and c.proves(eq(v._shape[0], self.mode[2])):
            return "history"
        return None

    def agrees(self, v, role, k, c, obl=None):
        """Does v have its role at the start of iteration k + 1?"""
        if role == "iteration" or role == "previous iteration":
            want = k + 1 if role == "iteration" else k
            if not (isinstance(v, int) or isinstance(v, S) and v.dtype.kind == "i"):
                return False
            return self.eq(sym.to_num(sym.lift(v).v), want, c, obl)
        if role.startswith("previous ") and role != "previous estimate":
            if not isinstance(v, S) or v.dtype.kind != "f":
                return False
            return self.eq(sym.to_num(v.v), self.spec.entry(role.split()[1], k), c, obl)
        if not isinstance(v, SArr) or v.ndim != 2 or v.dtype.kind != "c":
            return False
        return self.agrees_with(v, self.spec.next(k) if role == "estimate" else self.spec.confined(k), c, obl)

    def agrees_with(self, v, want, c, obl=None):
        u = [T.mono1(T.fresh("u", "I")) for _ in range(2)]
        if not all(c.proves(eq(a, self.spec.p.n)) for a in v._shape):
            return False
        f = P.Facts(c.facts.bs + [le(0, i) for i in u] + [lt(i, self.spec.p.n) for i in u], c.facts.foralls)
        with ctx.at(f) as c2:
            return self.eq(v.get(u), want(*u), c2, obl)

    def eq(self, a, b, c, obl):
        if obl:
            return self.s.equal(obl, a, b, c.facts)
        return self.same(a, b, c)

    def same(self, a, b, c):
        with ctx.at(c.facts) as c2:
            return P.prove_eq(a, b, c2.facts) == "proved"

    def same_model(self, v, ref, c):
        bad = [k for k in sorted(set(v.__dict__) | set(ref.__dict__)) if not self.same_value(v.__dict__.get(k), ref.__dict__.get(k), c)]
        if self.learn:
            if bad:
                raise Unsupported(f"no invariant found for the model's {bad[0]}")
        else:
            self.s.add("the model is in the state of that estimate", "proved" if not bad else "unknown", bad)

    def same_value(self, a, b, c):
        if a is b:
            return True
        if isinstance(a, SArr) and isinstance(b, SArr):
            if a.ndim != b.ndim or a.dtype != b.dtype or not all(c.proves(eq(x, y)) for x, y in zip(a._shape, b._shape)):
                return False
            i = [T.mono1(T.fresh("i", "I")) for _ in a._shape]
            f = P.Facts(c.facts.bs + [le(0, x) for x in i] + [lt(x, q) for x, q in zip(i, a._shape)], c.facts.foralls)
            with ctx.at(f) as c2:
                return P.prove_eq(a.get(i), b.get(i), c2.facts) == "proved"
        if isinstance(a, (S, int, float)) and isinstance(b, (S, int, float)):
            return self.same(sym.to_num(val(a)), sym.to_num(val(b)), c)
        return a == b


def snapshot(v):
    if isinstance(v, SArr):
        return v.buf.fn
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    if hasattr(v, "__dict__") and not isinstance(v, (S, type)) and not callable(v):
        return dict(v.__dict__)
    return None


def changed(v, snap):
    now = snapshot(v)
    if isinstance(v, SArr):
        return now is not snap
    if isinstance(now, list):
        return len(now) != len(snap) or any(a is not b for a, b in zip(now, snap))
    if isinstance(now, dict):
        return set(now) != set(snap) or any(now[k] is not snap[k] for k in now)
    return False


class Spec:
    """The sequence of estimates P(k, row, column), in Fourier order."""

    def __init__(self, p, nz, zat, phase_only, data):
        self.p, self.nz, self.zat, self.phase_only = p, nz, zat, phase_only
        self.P = elem("estimate", "c")
        self.A = elem("field", "c")
        self.d = lambda *i: data(i)

    def inside(self, u, v):
        ky, kx = freq(u, self.p.n, self.p.res), freq(v, self.p.n, self.p.res)
        return lt(T.sqrt(kx * kx + ky * ky), self.p.na * T.inv(self.p.wl))

    def confined(self, k):
        """Estimate k: the ideal pupil to begin with; always zero outside the pupil."""
        if T.coerce(k).const() == 0:
            return lambda u, v: (ite(self.inside(u, v), num(1), num(0)), num(0))
        return lambda u, v: tuple(ite(self.inside(u, v), x, num(0)) for x in self.P(k, u, v))

    def estimate(self, k):
        g = self.confined(k)
        return SArr(lambda i: g(*i), (self.p.n, self.p.n), DT["c"])

    def psfa(self, k):
        """The amplitude PSF of estimate k, by name (Invariant.named proves what it stands for)."""
        return lambda z, y, x: self.A(k, z, y, x)

    def psfa_formula(self, k):
        return hanser_psfa(self.p, self.confined(k), "none", "none", self.zat)

    def next(self, k):
        """Estimate k + 1 from estimate k."""
        n, nz = self.p.n, self.nz
        a = self.psfa(k)
        h = T.fdiv(n, num(2))

        def field(z, y, x):
            e, d = a(z, y, x), T.coerce(self.d(z, y, x))
            m, t = T.sqrt(ite(lt(0, d), d, num(0))), T.atan2(e[1], e[0])
            return [m * T.cos(t), m * T.sin(t)]

        def plane(z, u, v):
            L = T.lam([n, n], lambda i: field(z, *[ite(lt(q, n - h), q + h, q + h - n) for q in i]))
            re, im = symnp.dft_lam(False, L, [u, v])
            ky, kx = freq(u, n, self.p.res), freq(v, n, self.p.res)
            kz = T.sqrt((self.p.ni * T.inv(self.p.wl)) ** 2 - (kx * kx + ky * ky))
            ph = 2 * PI * kz * self.zat(z)
            c, q = T.cos(ph), T.sin(ph)
            return re * c + im * q, im * c - re * q

        def f(u, v):
            r = [T.ssum([nz], lambda z, j=j: plane(z[0], u, v)[j]) * T.inv(nz) for j in (0, 1)]
            if self.phase_only:
                t = T.atan2(r[1], r[0])
                r = [T.cos(t), T.sin(t)]
            return tuple(ite(self.inside(u, v), x, num(0)) for x in r)
        return f

    def entry(self, what, k):
        n = self.p.n
        if what == "mse":
            a = self.psfa(k)

            def sq(z, y, x):
                e = a(z, y, x)
                d = T.coerce(self.d(z, y, x)) - (e[0] * e[0] + e[1] * e[1])
                return d * d
            return T.ssum([self.nz, n, n], lambda i: sq(*i)) * T.inv(self.nz * n * n)
        if T.coerce(k).const() == 0:
            return T.app("nan", (), "R")
        if what == "mse_diff":
            old = self.known("mse", k - 1)
            return T.absv(old - self.entry("mse", k)) * T.inv(old)
        p, q = self.confined(k - 1), self.confined(k)
        sq = lambda a, b: (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2
        zero = (num(0), num(0))
        return T.ssum([n, n], lambda i: sq(p(*i), q(*i))) * T.inv(T.ssum([n, n], lambda i: sq(p(*i), zero)))

    def known(self, what, k):
        """An error of an earlier estimate, by name."""
        return T.app("error." + what, (T.coerce(k),), "R")

    def value(self, role, k):
        """What a variable of that role holds at the start of iteration k >= 1."""
        if role in ("iteration", "previous iteration"):
            return S(k if role == "iteration" else k - 1, DT["i"], True)
        if role in ("estimate", "previous estimate"):
            return self.estimate(k if role == "estimate" else k - 1)
        return S(self.known(role.split()[1], k - 1), DT["f"], False)


def contract(s):
    w = s.world()
    pr = w.module("phaseretrieval")
    o = w.module("otf")
    P_ = Par()
    n, nz = P_.n, P_.nz
    N = ivar("max_iters")
    pt, mt = rvar("pupil_tol"), rvar("mse_tol")

    def go(po, zk, dtype="f8", form="keywords", vec=False):
        s.under(ENTRY, "phaseretrieval._calc_mse", "otf.HanserPSF.apply_pupil", "otf.HanserPSF._gen_psf", "otf.HanserPSF._calc_defocus",
                "otf.HanserPSF._gen_pupil", "otf.HanserPSF._gen_kr", "phaseretrieval.PhaseRetrievalResult.__init__")
        t = f"{'phase only' if po else 'both'}, {zk}, {dtype}, {form}" + (", other corrections asked for" if vec else "")
        mid = T.fdiv(nz, num(2))
        zr = elem("zrange")
        zat = {"zres": lambda z: (z - mid) * P_.zres, "no zres": lambda z: (z - mid) * P_.res, "zrange": lambda z: zr(z)}[zk]
        def stack():
            return inarr("data", (nz, n, n), dtype=np.dtype(dtype)) if np.dtype(dtype).kind in "iu" else inarr("data", (nz, n, n))

        spec = Spec(P_, nz, zat, po, stack().orig)
        inv = Invariant(s, spec, o.HanserPSF)
        ptol, mtol = (pt, mt) if form != "defaults" else (T.coerce(1e-8), T.coerce(1e-8))
        iters = N if form != "defaults" else num(200)
        data = []

        def run():
            inv.mode, inv.met = None, False
            d = stack()
            data[:] = [d]
            p = dict(wl=pyfloat(P_.wl), na=pyfloat(P_.na), ni=pyfloat(P_.ni), res=pyfloat(P_.res))
            if zk == "zres":
                p["zres"] = pyfloat(P_.zres)
            elif zk == "zrange":
                p["zrange"] = inarr("zrange", (nz,))
            if vec:
                p.update(vec_corr="total", condition="herschel", size=7, zsize=3)
            if form == "keywords":
                r = pr.retrieve_phase(d, p, max_iters=pyint(N), pupil_tol=pyfloat(pt), mse_tol=pyfloat(mt), phase_only=po)
            elif form == "positions":
                r = pr.retrieve_phase(d, p, pyint(N), pyfloat(pt), pyfloat(mt), po)
            elif po:
                r = pr.retrieve_phase(d, p, phase_only=po)
            else:
                r = pr.retrieve_phase(d, p)
            return r, inv.mode
        gen = o.HanserPSF.__dict__["_gen_psf"]

        def gen_psf(self, *a, **k):
            pupil = a[0] if a else k.get("pupil_base")
            return inv.named(gen(self, *a, **k), pupil)
        pre = P_.pre + P_.prez + [le(1, N)]
        load.LOOPS.clear()
        load.LOOPS["phaseretrieval"] = inv
        o.HanserPSF._gen_psf = gen_psf
        try:
            # find the roles
            for _ in range(5):
                inv.bad_before = set(inv.bad)
                s.cover_ = None
                explore(run, P.Facts(pre))
                if inv.bad == inv.bad_before:
                    break
                inv.roles, inv.hist = {}, {}
            else:
                raise Unsupported("no loop invariant found")
            if not inv.met:
                raise Unsupported("the loop was not met")
            inv.learn = False
            roles = sorted(str(r[1]) if r != "model" else r for r in inv.roles.values() if len(r) > 1)
            if "estimate" not in roles:
                raise Unsupported("no variable holds the estimate")
            for p in s.paths(run, pre):
                if s.returns(f"returns ({t})", p):
                    r, (mode, k, nn) = p.result
                    outcome(f"{t}, {mode}", p, r, mode, k, nn, spec, inv, ptol, mtol)
                    s.unchanged(f"the data are not modified ({t})", p.facts, data[0])
        finally:
            load.LOOPS.clear()
            o.HanserPSF._gen_psf = gen

    def outcome(t, p, r, mode, k, nn, spec, inv, ptol, mtol):
        """mode: stopped at the first estimate / at estimate k / all nn estimates were made."""
        f = p.facts
        last = nn - 1 if mode == "done" else k
        for what in ("mse", "mse_diff", "pupil_diff"):
            a = getattr(r, what)
            if not s.add(f"{what} is a vector ({t})", "proved" if isinstance(a, SArr) and a.ndim == 1 else "refuted", a):
                continue
            s.prove(f"one entry of {what} per estimate ({t})", eq(a._shape[0], last + 1), f)
            if mode != "done":
                with ctx.at(f):
                    s.equal(f"last entry of {what} ({t})", a.get([last]), spec.entry(what, last), f)
            j = T.mono1(T.fresh("j", "I"))
            f2 = P.Facts(f.bs + [le(0, j), lt(j, last if mode != "done" else nn)], f.foralls)
            if mode != "first":
                with ctx.at(f2) as c:
                    e = a.get([j])
                    names = [m for m in inv.hist if inv.what(m) == what]
                    ok = any(P.prove_eq(e, T.app("history." + m, (j,), "R"), c.facts) == "proved" for m in names)
                s.add(f"earlier entries of {what} are those of the history ({t})", "proved" if ok else "unknown", e)
        if mode != "done":
            crit = [lt(spec.entry(x, last), tol) for x, tol in (("mse", mtol), ("mse_diff", mtol), ("pupil_diff", ptol)) if mode != "first" or x == "mse"]
            s.prove(f"it stops when a tolerance is met ({t})", bor(*crit), f)
        pupil = spec.confined(nn if mode == "done" else k)
        h = T.fdiv(n, num(2))
        src = lambda i: ite(le(h, i), i - h, i - h + n)

        def shifted(y, x):
            return pupil(src(y), src(x))

        def mag(y, x):
            e = shifted(y, x)
            return T.sqrt(e[0] * e[0] + e[1] * e[1])
        s_inside = lambda y, x: spec.inside(src(y), src(x))

        def rebuilt(e, inside, ph):
            m, ph = ite(inside, T.sqrt(e[0] * e[0] + e[1] * e[1]), num(0)), ite(inside, ph, num(0))
            return m * T.cos(ph), m * T.sin(ph)
        L = lambda: T.lam([n, n], lambda i: [T.atan2(*shifted(*i)[::-1])])
        s.array(f"magnitude ({t})", f, r.mag, (n, n), mag, kind="f")
        s.array(f"complex pupil ({t})", f, r.complex_pupil, (n, n), lambda y, x: rebuilt(shifted(y, x), s_inside(y, x), T.op("unwrap", "", [L()], [y, x], 0)), kind="c")
        kr = lambda y, x: (freq(src(y), n, P_.res), freq(src(x), n, P_.res))
        s.array(f"r ({t})", f, r.r, (n, n), lambda y, x: T.sqrt(kr(y, x)[0] * kr(y, x)[0] + kr(y, x)[1] * kr(y, x)[1]), kind="f")
        s.array(f"theta ({t})", f, r.theta, (n, n), lambda y, x: T.atan2(*kr(y, x)), kind="f")
        m = r.model
        s.add(f"the model is without corrections ({t})", "proved" if (m.vec_corr, m.condition) == ("none", "none") else "refuted")
        s.prove(f"the model has the shape of the data ({t})", band(eq(sym.to_num(val(m.size)), n), eq(sym.to_num(val(m.zsize)), nz)), f)
        s.array(f"phase ({t})", f, r.phase, (n, n), lambda y, x: ite(spec.inside(src(y), src(x)), T.op("unwrap", "", [L()], [y, x], 0), num(0)), kind="f")

    cases = [(False, "zres", {}), (True, "zres", {}), (False, "no zres", dict(dtype="u2", form="positions")),
             (True, "no zres", dict(form="positions")), (False, "zrange", dict(vec=True)), (True, "zrange", dict(dtype="i4")),
             (False, "zres", dict(form="defaults")), (True, "zres", dict(form="defaults", dtype="f4"))]
    for po, zk, kw in cases:
        s.guard(f"retrieval ({po}, {zk}, {kw})", lambda po=po, zk=zk, kw=kw: go(po, zk, **kw))

    def refused():
        s.under(ENTRY)
        a, b = ivar("a"), ivar("b")
        kw = lambda: dict(wl=pyfloat(P_.wl), na=pyfloat(P_.na), ni=pyfloat(P_.ni), res=pyfloat(P_.res))
        pre = P_.pre + [le(1, nz), le(1, a), le(1, b)]
        for p in s.paths(lambda: pr.retrieve_phase(inarr("data", (nz, a, b)), kw(), pyint(N)), pre + [bnot(eq(a, b))]):
            s.raises("planes that are not square are refused", p, AssertionError)
        for p in s.paths(lambda: pr.retrieve_phase(inarr("data", (nz, n, n)), kw(), pyint(N)), pre + [le(N, 0)]):
            s.raises("no iterations are refused", p, AssertionError)
    s.guard("refused", refused)

