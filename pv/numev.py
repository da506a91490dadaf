"""Concrete points: assignments to the variables and unknown functions of an obligation.

A term is evaluated with exact rationals as long as possible and with floats where roots and angles occur; anything whose value
is not certain (an operator without a semantics here, a comparison too close to call) has no value.  A point at which every fact
holds and a goal does not is a counterexample, whatever the solver could say."""
import hashlib
import math
from fractions import Fraction

import z3

from . import term as T

LIBRARY = {"jacobi", "table", "nan", "inf", "ninf", "next_fast_len"}
TINY = 1e-7
BUDGET = 6000          # steps for one condition
SEARCH = 8000          # steps for all facts of one search
SPENT = [0]
COSTLY = set()          # conditions too large to evaluate


class NoValue(Exception):
    pass


def _hash(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "big")


def _exact(x):
    return isinstance(x, (int, Fraction))


def _sign(x, scale=1.0):
    """-1, 0, 1, or NoValue when a float is too close to zero."""
    if _exact(x):
        return (x > 0) - (x < 0)
    if not math.isfinite(x) or abs(x) <= TINY * scale:
        raise NoValue
    return 1 if x > 0 else -1


class Point:
    def __init__(self, values, seed):
        self.values, self.seed = values, seed       # variable name -> number
        self.memo = {}
        self.left = 0

    # -- entry points
    def holds(self, b):
        if b.id in COSTLY:
            return None
        self.left = BUDGET
        try:
            return self.b(b, {})
        except (NoValue, OverflowError, ZeroDivisionError, RecursionError, ValueError):
            if self.left < 0:
                COSTLY.add(b.id)
            return None

    def value(self, p):
        self.left = BUDGET
        try:
            return self.p(p, {})
        except (NoValue, OverflowError, ZeroDivisionError, RecursionError, ValueError):
            return None

    def text(self, goal):
        from . import prove as P
        vs = sorted({T.ATOMS[a].name for a in P.deep_atoms(goal) if T.ATOMS[a].kind == "var" and T.ATOMS[a].name in self.values})
        return "counterexample: " + ", ".join(f"{n} = {self.values[n]}" for n in vs)

    # -- terms
    def var(self, A, env):
        if A.id in env:
            return env[A.id]
        if A.name == "pi":
            return math.pi
        v = self.values.get(A.name)
        if v is None:
            if A.name.startswith("#"):
                raise NoValue
            h = _hash(self.seed, A.name)
            v = h % 5 if A.sort == "I" else Fraction(h % 1997 + 3, 997)
            self.values[A.name] = v
        return v

    def p(self, p, env):
        k = None
        if not any(a in env for a in p.fv) and p.level == 0:
            k = (0, p.id)
            r = self.memo.get(k)
            if r is not None:
                if r is NoValue:
                    raise NoValue
                return r
        self.left -= 1
        SPENT[0] += 1
        if self.left < 0:
            raise NoValue
        try:
            tot, scale = self.terms(p, env)
            if isinstance(tot, float):
                if not math.isfinite(tot):
                    raise NoValue
                if abs(tot) < 1e-11 * scale:
                    tot = 0.0
            elif p.sort == "I" and tot.denominator == 1:
                tot = Fraction(tot)
        except NoValue:
            if k is not None:
                self.memo[k] = NoValue
            raise
        if k is not None:
            self.memo[k] = tot
        return tot

    def terms(self, p, env):
        """The value and the size of the largest term."""
        tot, scale = Fraction(0), 0.0
        for mono, c in p.m:
            v = c
            for a, e in mono:
                x = self.a(T.ATOMS[a], env)
                if x == 0 and e < 0:
                    raise NoValue
                v = v * x ** e
                if v == 0:
                    break
            tot = tot + v
            scale = max(scale, abs(float(v)))
        return tot, scale

    def a(self, A, env):
        if A.kind == "var":
            return self.var(A, env)
        k = None
        if not any(x in env for x in A.fv) and A.level == 0:
            k = (1, A.id)
            r = self.memo.get(k)
            if r is not None:
                if r is NoValue:
                    raise NoValue
                return r
        try:
            r = self.atom(A, env)
        except NoValue:
            if k is not None:
                self.memo[k] = NoValue
            raise
        if k is not None:
            self.memo[k] = r
        return r

    def atom(self, A, env):
        kd, n = A.kind, A.name
        if kd == "ite":
            return self.p(A.args[1] if self.b(A.args[0], env) else A.args[2], env)
        if kd == "inv":
            x = self.p(A.args[0], env)
            if _sign(x) == 0:
                raise NoValue
            return 1 / x
        if kd == "app":
            return self.app(A, n, env)
        if kd == "sum":
            return self.fold(A.args[0], env, sum)
        if kd == "op":
            return self.op(A, n, env)
        raise NoValue

    def box(self, L, env):
        sz = [self.p(s, env) for s in L.sizes]
        vol = 1
        for s in sz:
            if not _exact(s) or s.denominator != 1 or s < 0:
                raise NoValue
            vol *= int(s)
        if vol > 700:
            raise NoValue
        import itertools
        ids = [T.bv(L.lvl, i).id for i in range(len(sz))]
        for idx in itertools.product(*[range(int(s)) for s in sz]):
            e = dict(env)
            e.update(zip(ids, map(Fraction, idx)))
            yield idx, e

    def fold(self, L, env, how):
        return how(self.p(L.bodies[0], e) for _, e in self.box(L, env))

    def op(self, A, n, env):
        parts, part, nl = A.params
        L = A.args[0]
        if n == "max":
            v = [self.p(L.bodies[0], e) for _, e in self.box(L, env)]
            if not v:
                raise NoValue
            return max(v)
        if n == "argmax":
            best = None
            for idx, e in self.box(L, env):
                x = self.p(L.bodies[0], e)
                if best is None or _sign(x - best[0], abs(float(x))) > 0:
                    best = (x, idx)
            if best is None:
                raise NoValue
            return Fraction(best[1][part])
        if n in ("dft", "idft"):
            idx = [self.p(x, env) for x in A.args[nl:]]
            sz = [self.p(s, env) for s in L.sizes]
            sg = 1 if n == "idft" else -1
            tot = 0j
            for u, e in self.box(L, env):
                re, im = self.p(L.bodies[0], e), self.p(L.bodies[1], e)
                if re == 0 and im == 0:
                    continue
                ph = sum(Fraction(a) * b / s for a, b, s in zip(u, idx, sz)) % 1
                t = 2 * math.pi * float(ph) * sg
                tot += complex(float(re), float(im)) * complex(math.cos(t), math.sin(t))
            if sg == 1:
                for s in sz:
                    tot /= int(s)
            return tot.imag if part else tot.real
        raise NoValue

    def app(self, A, n, env):
        if n in LIBRARY or not all(isinstance(x, T.Poly) for x in A.args):
            raise NoValue
        v = [self.p(x, env) for x in A.args]
        if n == "sqrt":
            if v[0] == 0:
                return Fraction(0)
            if _sign(v[0]) < 0:
                raise NoValue
            if _exact(v[0]):
                f = Fraction(v[0])
                a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if a * a == f.numerator and b * b == f.denominator:
                    return Fraction(a, b)
            return math.sqrt(v[0])
        if n in ("cos", "sin", "exp"):
            if v[0] == 0:
                return Fraction(0) if n == "sin" else Fraction(1)
            return getattr(math, n)(float(v[0]))
        if n in ("log", "log10"):
            if _sign(v[0]) <= 0:
                raise NoValue
            return getattr(math, n)(float(v[0]))
        if n == "abs":
            return abs(v[0])
        if n == "arcsin":
            if abs(v[0]) > 1:
                raise NoValue
            return math.asin(float(v[0]))
        if n == "atan2":
            if v[0] == 0 and v[1] == 0:
                return Fraction(0)
            return math.atan2(float(v[0]), float(v[1]))
        if n == "pow":
            if _sign(v[0]) <= 0:
                raise NoValue
            return float(v[0]) ** float(v[1])
        if n in ("floor", "rint", "fdiv"):
            if n == "fdiv":
                if _sign(v[1]) == 0:
                    raise NoValue
                x = v[0] / v[1]
            else:
                x = v[0]
            if not _exact(x):
                if not math.isfinite(x) or abs(x * 2 - round(x * 2)) < TINY:
                    raise NoValue
            return Fraction(round(x) if n == "rint" else math.floor(x))
        # an unknown function
        key = []
        for x in v:
            if _exact(x):
                key.append(str(Fraction(x)) if Fraction(x).denominator < 10 ** 6 else f"{float(x):.8g}")
            else:
                key.append(f"{x:.8g}")
        h = _hash(self.seed, n, A.params, *key)
        r = T.RANGES.get(n)
        if r is not None:
            return Fraction(max(r[0], min(r[1], h % 12)))
        lo = -6 if self.seed % 2 else 0
        return Fraction(h % 12 + lo) if A.sort == "I" else Fraction(h % 3989 + 1 + lo * 330, 997)

    # -- conditions
    def b(self, b, env):
        k = b.kind
        if k == "T":
            return True
        if k == "F":
            return False
        if k in ("le", "lt", "eq"):
            x, scale = self.terms(b.args[0], env)
            if not _exact(x) and abs(x) <= TINY * scale:
                raise NoValue
            s = (x > 0) - (x < 0)
            return s <= 0 if k == "le" else s < 0 if k == "lt" else s == 0
        if k == "not":
            return not self.b(b.args[0], env)
        if k in ("and", "or"):
            # one certain value may decide
            stop, hole = k == "or", False
            for x in b.args:
                try:
                    if self.b(x, env) == stop:
                        return stop
                except NoValue:
                    hole = True
            if hole:
                raise NoValue
            return not stop
        if k == "bapp" and b.name not in ("all", "any") and all(isinstance(x, T.Poly) for x in b.args):
            return bool(_hash(self.seed, b.name, *[f"{float(self.p(x, env)):.8g}" for x in b.args]) % 2)
        raise NoValue


# ------------------------------------------------------------------------------------------ finding points

POOL = []
STATS = dict(models=0, points=0, hits=0)
_found = {}


def _number(m, A):
    from . import prove as P
    v = m.eval(P.za(A), model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(10)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def all_hold(pt, bs, stop=None):
    for b in bs:
        if stop is not None and SPENT[0] > stop or pt.holds(b) is not True:
            return False
    return True


def points(facts, want=2):
    """Points at which the facts hold, as far as found."""
    from . import prove as P
    if facts.foralls:
        return []
    bs = [b for b in facts.bs if b is not T.T]
    if any(b.id in COSTLY for b in bs):
        return []
    key = tuple(sorted(b.id for b in bs))
    r = _found.get(key)
    if r is not None:
        return r
    bs.sort(key=lambda b: b.level)
    stop = SPENT[0] + SEARCH
    r = []
    for pt in reversed(POOL):
        if len(r) < want and all_hold(pt, bs, stop):
            r.append(pt)
    if len(r) < want:
        s = z3.Solver()
        s.set("timeout", 600)
        atoms = set()
        for b in bs:
            atoms |= P.deep_atoms(b)
        vs = [T.ATOMS[a] for a in sorted(atoms) if T.ATOMS[a].kind == "var" and T.ATOMS[a].name != "pi"]
        for b in bs:
            s.add(P.zb(b))
        for a in sorted(P._closure(atoms)):
            for ax in P.axioms(T.ATOMS[a]):
                s.add(ax)
        STATS["models"] += 1
        base = {}
        try:
            # generic points are worth more than degenerate ones
            for A in vs:
                if A.sort == "I" and not A.name.startswith("q!"):
                    s.push()
                    s.add(P.za(A) >= 1 + _hash(A.name) % 3, P.za(A) <= 9)
                    if s.check() != z3.sat:
                        s.pop()
            if s.check() == z3.sat:
                m = s.model()
                base = {A.name: _number(m, A) for A in vs}
        except z3.Z3Exception:
            base = {}
        if base and all(v is not None for v in base.values()):
            for t in range(24):
                seed = len(POOL) * 100 + t
                val = dict(base)
                if t:
                    for A in vs:
                        h = _hash(seed, A.name, "p")
                        if A.sort == "R":
                            val[A.name] = (base[A.name] or Fraction(h % 7, 5)) * Fraction(800 + h % 401, 1000)
                        elif t > 8:
                            val[A.name] = base[A.name] + h % 3 - 1
                pt = Point(val, seed)
                if all_hold(pt, bs, stop):
                    POOL.append(pt)
                    STATS["points"] += 1
                    r.append(pt)
                    if len(r) >= want:
                        break
                if any(b.id in COSTLY for b in bs) or SPENT[0] > stop:
                    break
        if len(POOL) > 24:
            del POOL[:-24]
    _found[key] = r
    return r


def refute(goal, facts):
    """A point at which the facts hold and the goal does not, or None."""
    if goal.id in COSTLY:
        return None
    for pt in points(facts):
        if pt.holds(goal) is False:
            STATS["hits"] += 1
            return pt
    return None
