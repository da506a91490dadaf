"""Obligations: collecting, discharging and reporting them."""
import signal
import time
import traceback

from . import term as T
from . import prove as P
from . import ctx, sym, symnp, load
from .term import num, eq, le, lt, band, bor, bnot, bnot_deep, implies, ite
from .ctx import Unsupported, explore
from .sym import S, SArr, DT


class Deadline(BaseException):
    pass


class Session:
    """The obligations of one property on the current source."""

    def __init__(self, pid, tier="quick", repo=None, verbose=False, shard=(0, 1)):
        self.shard, self.nguards = shard, 0      # this process runs every n-th part of the contract
        self.pid, self.tier, self.verbose = pid, tier, verbose
        self.repo = repo or load.REPO
        self.obs = []           # dicts: name, fn, status, detail, seconds
        self.functions = set()
        self.assumptions = []
        self.extra_cases = []   # concrete inputs worth trying (from counterexamples)
        self.lemmas = set()
        self.cur_fn = ""
        self.covers = 0
        self.npaths = 0

    # -- the code
    def world(self, overrides=None):
        w = load.World(self.repo, overrides)
        return w

    def under(self, *names):
        self.functions.update(names)
        self.cur_fn = names[0]

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def lemma(self, text):
        self.lemmas.add(text)

    # -- results
    def add(self, name, status, detail="", t0=None):
        o = dict(name=f"{self.cur_fn}: {name}" if self.cur_fn else name, status=status, detail=str(detail)[:1500],
                 seconds=round(time.time() - t0, 3) if t0 else 0)
        self.obs.append(o)
        if self.verbose:
            print(f"  [{status}] {o['name']} {o['seconds']}s {o['detail'][:300] if status != 'proved' else ''}", flush=True)
        return status == "proved"

    def guard(self, name, fn):
        """Run a part of a contract; an unsupported construct leaves its obligation undischarged."""
        self.nguards += 1
        if (self.nguards - 1) % self.shard[1] != self.shard[0]:
            return
        t0 = time.time()
        n = len(self.obs)
        try:
            fn()
        except Unsupported as e:
            self.add(name, "unsupported", e, t0)
        except RecursionError as e:
            self.add(name, "unsupported", "recursion", t0)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, NameError, ZeroDivisionError,
                OverflowError) as e:
            # the contract could not be evaluated on what the code returned
            self.add(name, "unsupported", f"{type(e).__name__}: {e}\n" + "".join(traceback.format_exc().splitlines(True)[-5:]), t0)
        if len(self.obs) == n:
            self.add(name, "unsupported", "no obligation was generated", t0)

    def paths(self, fn, facts=(), foralls=(), cover=True):
        f = facts if isinstance(facts, P.Facts) else P.Facts(list(facts), list(foralls))
        P.BASE[:] = [f.copy()]
        if cover:
            # a contradictory precondition would prove anything
            if not P.feasible(f):
                self.add("precondition is satisfiable", "unsupported", "contradictory precondition")
                raise Unsupported("contradictory precondition")
            self.covers += 1
        ps = explore(fn, f)
        ps = [p for p in ps if P.feasible(p.facts)]
        if not ps:
            raise Unsupported("no feasible path")
        self.npaths += len(ps)
        return ps

    def prove(self, name, goal, facts, model_hint=None):
        t0 = time.time()
        with ctx.at(facts):
            r = P.check(goal, facts, want_model=True)
            status = r[0]
            detail = ""
            if status == "refuted":
                detail = model_text(r[1], goal)
                if not decisive_b(goal) or facts.foralls:
                    status = "unknown"
                elif model_hint and r[1] is not None:
                    self.hint(model_hint, r[1])
            if status != "proved":
                detail = f"goal {str(goal)[:400]}\n{detail}"
        return self.add(name, status, detail, t0)

    def hint(self, fn, model):
        try:
            c = fn(lambda p: model_value(model, p))
            if c:
                self.extra_cases.append(c)
        except Exception:
            pass

    def equal(self, name, a, b, facts, model_hint=None):
        """Element values a (code) and b (specification) are equal."""
        t0 = time.time()
        with ctx.at(facts):
            status = P.prove_eq(a, b, facts)
            detail = ""
            if status != "proved":
                detail = f"code: {short(a)}\nspec: {short(b)}"
                if status == "refuted" and P.LAST.get("point") is not None:
                    pt = P.LAST["point"]
                    detail += "\n" + pt.text(P.LAST["goal"])
                    if model_hint:
                        self.hint(model_hint, pt)
                elif status == "refuted" and P.LAST.get("goal") is not None:
                    r, m = P.check(P.LAST["goal"], P.LAST["facts"], want_model=True)
                    if r != "refuted":      # a fresh solver must confirm the counterexample
                        status = "unknown"
                    detail += "\n" + model_text(m, P.LAST["goal"])
                    if P.LAST["facts"].foralls:
                        status = "unknown"
                    elif model_hint and m is not None:
                        self.hint(model_hint, m)
                elif P.LAST.get("stuck") is not None:
                    detail = f"remaining: {short(P.LAST['stuck'])}\n" + detail
        return self.add(name, status, detail, t0)

    def array(self, name, path_facts, r, shape, spec, extra=(), model_hint=None, kind=None):
        """r is an array of the given shape with element spec(idx) everywhere."""
        facts = path_facts
        if isinstance(r, S):
            r = SArr.const0(r)
        if not isinstance(r, SArr):
            return self.add(name, "refuted", f"not an array: {type(r).__name__}")
        if r.ndim != len(shape):
            return self.add(name + " (number of axes)", "refuted", f"{r.ndim} axes instead of {len(shape)}")
        ok = True
        for d, s in enumerate(shape):
            ok &= self.prove(f"{name}: size of axis {d}", eq(r._shape[d], T.coerce(s)), facts, model_hint)
        if kind is not None:
            ok &= self.add(f"{name}: element type", "proved" if r.dtype.kind in kind else "refuted", r.dtype)
        if not ok:
            return False
        idx = [T.mono1(T.fresh("i", "I")) for _ in shape]
        f2 = P.Facts(facts.bs + [le(num(0), i) for i in idx] + [lt(i, T.coerce(s)) for i, s in zip(idx, shape)] + list(extra),
                     facts.foralls)
        with ctx.at(f2) as c:
            a = r.get(idx)
            b = spec(*idx)
            f3 = c.facts
        return self.equal(f"{name}: every element", a, b, f3, model_hint)

    def reached(self, path):
        """Is the path certainly taken by some input?"""
        with ctx.at(path.facts):
            r = P.check(T.F, path.facts, want_model=True)
        dec = all(decisive_b(b) for b in path.facts.bs) and not path.facts.foralls
        return "refuted" if r[0] == "refuted" and dec else "unknown"

    def raises(self, name, path, types):
        ok = path.exc is not None and isinstance(path.exc, types)
        return self.add(name, "proved" if ok else self.reached(path),
                        "" if ok else f"{path.outcome()} {path.exc} on the path {pathcond(path)}")

    def returns(self, name, path):
        ok = path.exc is None
        d = ""
        if not ok:
            d = f"{path.outcome()} {path.exc} on the path {pathcond(path)}\n" + \
                "".join(traceback.format_exception(path.exc)[-3:])
        return self.add(name, "proved" if ok else self.reached(path), d)

    def unchanged(self, name, facts, *arrays):
        """Frame: the caller's arrays read as before."""
        bad = [a for a in arrays if a.buf.writes]
        if not bad:
            return self.add(name, "proved")
        return all([self.array(name, facts, a, a._shape, lambda *i, a=a: a.orig(tuple(i))) for a in bad])

    def total(self, st):
        return sum(1 for o in self.obs if o["status"] == st)


def decisive_b(b):
    for a in P.deep_atoms(b):
        A = T.ATOMS[a]
        if A.kind in ("op", "sum") or (A.kind == "app" and A.name in P.OPAQUE):
            return False
    return True


def pathcond(p):
    return " and ".join(str(b) for b in p.facts.bs[-6:])[:600]


def short(x):
    s = str(x)
    return s if len(s) < 500 else s[:500] + "..."


def model_value(m, p):
    """Python number of the Poly p in a z3 model or at a point."""
    import z3
    if isinstance(m, P.numev.Point):
        v = m.value(T.coerce(p))
        if v is None:
            raise ValueError("no value")
        return int(v) if T.coerce(p).sort == "I" else float(v)
    v = m.eval(P.zp(T.coerce(p)), model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(12).as_fraction())
    raise ValueError("no value")


def model_text(m, goal):
    if m is None:
        return ""
    out = []
    for a in sorted(P.deep_atoms(goal)):
        A = T.ATOMS[a]
        if A.kind == "var" or A.kind == "app" and not A.args:
            try:
                out.append(f"{A.name} = {m.eval(P.za(A), model_completion=True)}")
            except Exception:
                pass
    return "counterexample: " + ", ".join(out)


# ------------------------------------------------------------------------------------- symbolic inputs

def ivar(name):
    return T.mono1(T.var(name, "I"))


def rvar(name):
    return T.mono1(T.var(name, "R"))


def pyint(p):
    return S(p, DT["i"], True) if T.coerce(p).const() is None else int(p.const())


def pyfloat(p):
    return S(p, DT["f"], True)


def inarr(name, shape, kind="f", dtype=None):
    """An arbitrary array: every element is its own unknown."""
    shape = tuple(T.coerce(s) for s in shape)
    dt = dtype or DT[kind]
    k = dt.kind
    if sym.machine(dt):
        name = f"{name}:{dt}"
        T.RANGES[name] = sym.int_range(dt)

    def fn(idx):
        if k == "c":
            return (T.app(name + ".re", tuple(idx), "R"), T.app(name + ".im", tuple(idx), "R"))
        if k == "b":
            return T.bapp(name, tuple(idx))
        return T.app(name, tuple(idx), "I" if k in "iu" else "R")
    r = SArr(fn, shape, dt)
    r.orig = fn
    return r


def val(x):
    """The element value of a scalar result."""
    r = sym.lift(x)
    if r is None:
        raise TypeError(f"not a number: {x!r}")
    return r.v


def elem(name, kind="f", dtype=None):
    if dtype is not None and sym.machine(dtype):
        name = f"{name}:{dtype}"
    def f(*idx):
        if kind == "c":
            return (T.app(name + ".re", tuple(idx), "R"), T.app(name + ".im", tuple(idx), "R"))
        return T.app(name, tuple(idx), "I" if kind in "iu" else "R")
    return f
