"""Hash-consed terms in normal form.

A numeric term (`Poly`) is a polynomial with rational coefficients over *atoms*; an atom is a variable, an
uninterpreted application, an if-then-else, an inverse, a finite sum with bound variables or the output of an
opaque array operator (such as a Fourier transform of a closed array expression).  Two terms that are equal by
ring laws, congruence and renaming of bound variables are the same object.
"""
from fractions import Fraction

ATOMS = []          # id -> Atom
_atab = {}
_ptab = {}
_btab = {}

# facts of the current path (set by the context): ids of atoms that are known to be non zero,
# and the hook that proves facts on demand
STATE = {"nonzero": set(), "prove": None, "nonneg": {}}


class Atom:
    __slots__ = ("id", "kind", "name", "args", "sort", "level", "fv", "params", "hasite")

    def __repr__(self):
        return show_atom(self)


def _mk_atom(kind, name, args, sort, params=None):
    key = (kind, name, tuple(_k(a) for a in args), sort, params)
    a = _atab.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.name, a.args, a.sort, a.params = kind, name, tuple(args), sort, params
        lvl, fv, ite = 0, frozenset(), kind == "ite"
        for x in args:
            lvl = max(lvl, x.level)
            fv |= x.fv
            ite = ite or x.hasite
        if kind == "var":
            fv = frozenset([a.id])
        a.level, a.fv, a.hasite = lvl, fv, ite
        _atab[key] = a
        ATOMS.append(a)
    return a


def _k(x):
    return x.id if isinstance(x, (Poly, B)) else x.key()


class Lam:
    """A closed lambda: sizes (Polys) and bodies (Polys/Bs) over bound atoms bv(level, i)."""

    __slots__ = ("sizes", "bodies", "lvl", "level", "fv", "hasite", "_key")

    def __init__(self, sizes, bodies, lvl):
        self.sizes, self.bodies, self.lvl = tuple(sizes), tuple(bodies), lvl
        self.level = lvl
        fv = frozenset()
        bound = frozenset(bv(lvl, i).id for i in range(len(self.sizes)))
        ite = False
        for s in self.sizes:
            fv |= s.fv
        for b in self.bodies:
            fv |= b.fv
            ite = ite or b.hasite
        self.fv = fv - bound
        self.hasite = False
        self._key = (tuple(s.id for s in self.sizes),
                     tuple((isinstance(b, B), b.id) for b in self.bodies), lvl)

    def key(self):
        return self._key

    def open(self, idx):
        """Bodies instantiated at the given index terms."""
        sub = {bv(self.lvl, i).id: p for i, p in enumerate(idx)}
        return [subst(b, sub) for b in self.bodies]


def bv(level, i):
    return _mk_atom("var", f"#{level}.{i}", (), "I")


def lam(sizes, fn):
    """Build a closed lambda from a Python function of index Polys returning a list of terms."""
    vs = [fresh("u", "I") for _ in sizes]
    bodies = fn([mono1(v) for v in vs])
    lvl = 1 + max([0] + [b.level for b in bodies])
    sub = {v.id: mono1(bv(lvl, i)) for i, v in enumerate(vs)}
    return Lam(sizes, [subst(b, sub) for b in bodies], lvl)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return _mk_atom("var", f"{prefix}!{_fresh[0]}", (), sort)


def var(name, sort):
    return _mk_atom("var", name, (), sort)


# ---------------------------------------------------------------------------------------------- Poly

class Poly:
    __slots__ = ("id", "m", "sort", "level", "fv", "hasite")

    def __add__(self, o):
        return add(self, coerce(o))

    __radd__ = __add__

    def __neg__(self):
        return scale(self, -1)

    def __sub__(self, o):
        return add(self, scale(coerce(o), -1))

    def __rsub__(self, o):
        return add(coerce(o), scale(self, -1))

    def __mul__(self, o):
        return mul(self, coerce(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, inv(coerce(o)))

    def __rtruediv__(self, o):
        return mul(coerce(o), inv(self))

    def __pow__(self, n):
        return power(self, n)

    def const(self):
        """The Fraction value of a constant polynomial, else None."""
        if not self.m:
            return Fraction(0)
        if len(self.m) == 1 and self.m[0][0] == ():
            return self.m[0][1]
        return None

    def atom(self):
        """The Atom this polynomial consists of, else None."""
        if len(self.m) == 1 and self.m[0][1] == 1 and len(self.m[0][0]) == 1 and self.m[0][0][0][1] == 1:
            return ATOMS[self.m[0][0][0][0]]
        return None

    def atoms(self):
        return {a for mono, _ in self.m for a, _ in mono}

    def __repr__(self):
        return show(self)


def _mk_poly(d):
    items = tuple(sorted((m, c) for m, c in d.items() if c))
    p = _ptab.get(items)
    if p is None:
        p = Poly()
        p.m = items
        p.id = len(_ptab)
        lvl, fv, ite, sort = 0, frozenset(), False, "I"
        for mono, c in items:
            if c.denominator != 1:
                sort = "R"
            for a, _ in mono:
                A = ATOMS[a]
                lvl = max(lvl, A.level)
                fv |= A.fv
                ite = ite or A.hasite
                if A.sort != "I":
                    sort = "R"
        p.level, p.fv, p.hasite, p.sort = lvl, fv, ite, sort
        _ptab[items] = p
    return p


def num(c):
    c = Fraction(c)
    return _mk_poly({(): c})


def mono1(atom):
    return _mk_poly({((atom.id, 1),): Fraction(1)})


PI = None  # set below


def coerce(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return num(int(x))
    if isinstance(x, (int, Fraction)):
        return num(x)
    if isinstance(x, float):
        return num(frac(x))
    raise TypeError(f"not a term: {x!r}")


def frac(x):
    """A float literal denotes the decimal it is written as."""
    import math
    if math.isinf(x) or math.isnan(x):
        raise OverflowError("non finite float in a term")
    return Fraction(repr(float(x)))


def add(p, q):
    d = dict(p.m)
    for m, c in q.m:
        d[m] = d.get(m, 0) + c
    return _mk_poly(d)


def scale(p, c):
    c = Fraction(c)
    return _mk_poly({m: k * c for m, k in p.m})


def psum(ps):
    d = {}
    for p in ps:
        for m, c in p.m:
            d[m] = d.get(m, 0) + c
    return _mk_poly(d)


def mul(p, q):
    if len(p.m) > len(q.m):
        p, q = q, p
    d = {}
    extra = []
    for m1, c1 in p.m:
        for m2, c2 in q.m:
            r = _mulmono(m1, m2)
            c = c1 * c2
            if isinstance(r, tuple):
                d[r] = d.get(r, 0) + c
            else:
                extra.append(scale(r, c))
    out = _mk_poly(d)
    for e in extra:
        out = add(out, e)
    return out


def _mulmono(m1, m2):
    """Product of two monomials: a monomial, or a Poly when a reduction rule applies."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    touched = []
    for a, e in m2:
        if a in d:
            d[a] += e
        else:
            d[a] = e
        touched.append(a)
    # cancel x * inv(x)
    for a in touched:
        A = ATOMS[a]
        if d.get(a, 0) <= 0:
            continue
        if A.kind == "inv":
            x = A.args[0].atom()
            if x is not None and d.get(x.id, 0) > 0 and is_nonzero_atom(x):
                k = min(d[a], d[x.id])
                d[a] -= k
                d[x.id] -= k
        else:
            i = _atab.get(("inv", None, (mono1(A).id,), "R", None))
            if i is not None and d.get(i.id, 0) > 0 and is_nonzero_atom(A):
                k = min(d[a], d[i.id])
                d[a] -= k
                d[i.id] -= k
    # x^2 rules
    fac = None
    for a in list(d):
        A = ATOMS[a]
        if d[a] >= 2 and A.kind == "app":
            if A.name == "sqrt" and sqrt_reducible(A):
                k, d[a] = divmod(d[a], 2)
                f = power(A.args[0], k)
                fac = f if fac is None else mul(fac, f)
            elif A.name == "abs":
                k, d[a] = divmod(d[a], 2)
                f = power(A.args[0], 2 * k)
                fac = f if fac is None else mul(fac, f)
        elif d[a] >= 2 and A.kind == "ite" and A.args[1].const() in (0, 1) and A.args[2].const() in (0, 1):
            d[a] = 1  # indicator
    mono = tuple(sorted((a, e) for a, e in d.items() if e))
    if fac is not None:
        return mul(_mk_poly({mono: Fraction(1)}), fac)
    return mono


def is_nonzero_atom(a):
    if a.id in STATE["nonzero"]:
        return True
    if a.kind == "inv":
        return True
    if a.kind == "app" and a.name == "exp":
        return True
    if a.kind == "var" and a.name == "pi":
        return True
    if STATE["prove"] is not None and a.kind in ("var", "app", "op", "sum"):
        k = ("nz", a.id)
        r = STATE["nonneg"].get(k)
        if r is None:
            r = STATE["prove"](bnot(eq(mono1(a), num(0))))
            if r or STATE.get("cache_neg", True):
                STATE["nonneg"][k] = r
        if r:
            STATE["nonzero"].add(a.id)
        return bool(r)
    return False


def sqrt_reducible(A):
    return nonneg(A.args[0])


def nonneg_atom(A):
    return (A.kind == "app" and A.name in ("sqrt", "abs", "exp")) or (A.kind == "var" and A.name == "pi")


SQUARES = set()     # ids of Polys that are sums of squares by construction


def sum_squares(*xs):
    p = psum([x * x for x in xs])
    SQUARES.add(p.id)
    return p


def nonneg(p):
    """Is p obviously >= 0, or provably so on this path?"""
    if p.id in SQUARES:
        return True
    if RANGES:
        iv = interval(p)[0]
        if iv is not None and iv >= 0:
            return True
    ok = True
    for mono, c in p.m:
        if c < 0:
            ok = False
            break
        for a, e in mono:
            if e % 2 and not nonneg_atom(ATOMS[a]):
                if ATOMS[a].kind == "inv" and e % 2:
                    x = ATOMS[a].args[0].atom()
                    if x is not None and nonneg_atom(x):
                        continue
                ok = False
    if ok:
        return True
    k = ("nn", p.id)
    r = STATE["nonneg"].get(k)
    if r is None and STATE["prove"] is not None:
        r = STATE["prove"](le(num(0), p))
        STATE["nonneg"][k] = r
    return bool(r)


RANGES = {}     # application name -> (lowest, highest) value


def interval(p):
    """Bounds of p from the ranges of its atoms (None: unbounded)."""
    lo, hi = Fraction(0), Fraction(0)
    for mono, c in p.m:
        l = h = c
        for a, e in mono:
            A = ATOMS[a]
            r = RANGES.get(A.name) if A.kind == "app" else None
            if A.kind == "ite":
                x, y = interval(A.args[1]), interval(A.args[2])
                r = None if None in x + y else (min(x[0], y[0]), max(x[1], y[1]))
            if r is None or e < 0:
                return None, None
            q = [r[0] ** e, r[1] ** e]
            if e % 2 == 0 and r[0] < 0 < r[1]:
                q.append(0)
            w = [l * min(q), l * max(q), h * min(q), h * max(q)]
            l, h = min(w), max(w)
        lo, hi = lo + l, hi + h
    return lo, hi


def power(p, n):
    if n < 0:
        return power(inv(p), -n)
    r = num(1)
    b = p
    while n:
        if n & 1:
            r = mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def lead(p):
    return p.m[-1][1] if p.m else Fraction(0)


def inv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return mono1(_mk_atom("inv", None, (p,), "R"))  # unspecified
        return num(1 / c)
    if len(p.m) == 1:
        mono, c = p.m[0]
        r = num(1 / c)
        for a, e in mono:
            A = ATOMS[a]
            if A.kind == "inv":
                x = A.args[0]
                # 1/(1/x) is x only for x != 0
                if prove_nonzero(x):
                    r = mul(r, power(x, e))
                    continue
            r = mul(r, _mk_poly({((_mk_atom("inv", None, (mono1(A),), "R").id, e),): Fraction(1)}))
        return r
    # pull common monomial factors out, make the leading coefficient 1
    l = lead(p)
    q = scale(p, 1 / l)
    common = dict(q.m[0][0])
    for mono, _ in q.m[1:]:
        dm = dict(mono)
        common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
        if not common:
            break
    r = num(1 / l)
    if common:
        mm = tuple(sorted(common.items()))
        d = {}
        for mono, c in q.m:
            dd = dict(mono)
            for a, e in common.items():
                dd[a] -= e
            d[tuple(sorted((a, e) for a, e in dd.items() if e))] = c
        q = _mk_poly(d)
        r = mul(r, inv(_mk_poly({mm: Fraction(1)})))
        l2 = lead(q)
        if l2 != 1:
            q = scale(q, 1 / l2)
            r = scale(r, 1 / l2)
    return mul(r, mono1(_mk_atom("inv", None, (q,), "R")))


def prove_nonzero(p):
    a = p.atom()
    if a is not None:
        return is_nonzero_atom(a)
    if STATE["prove"] is None:
        return False
    k = ("nzp", p.id)
    r = STATE["nonneg"].get(k)
    if r is None:
        r = STATE["nonneg"][k] = STATE["prove"](bnot(eq(p, num(0))))
    return bool(r)


# ------------------------------------------------------------------------------------- applications

_SORT = {"floor": "I", "fdiv": "I", "rint": "I"}


def app(name, args, sort="R", params=None):
    return mono1(_mk_atom("app", name, args, sort, params))


def sqrt(p):
    p = coerce(p)
    c = p.const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d))
    if len(p.m) == 1:
        # sqrt of a square
        mono, c = p.m[0]
        if c > 0 and mono and all(e % 2 == 0 for _, e in mono):
            r = absv(_mk_poly({tuple((a, e // 2) for a, e in mono): Fraction(1)}))
            return mul(sqrt(num(c)), r) if c != 1 else r
    return app("sqrt", (p,))


def absv(p):
    p = coerce(p)
    c = p.const()
    if c is not None:
        return num(abs(c))
    if lead(p) < 0:
        p = -p
    if nonneg(p):
        return p
    return app("abs", (p,), p.sort)


def _pi_multiple(p):
    if not p.m:
        return Fraction(0)
    if len(p.m) == 1 and p.m[0][0] == ((PI.m[0][0][0][0], 1),):
        return p.m[0][1]
    return None


def cos(p):
    p = coerce(p)
    q = _pi_multiple(p)
    if q is not None and (2 * q).denominator == 1:
        return num([1, 0, -1, 0][int(2 * q) % 4])
    if lead(p) < 0:
        p = -p
    a = p.atom()
    if a is not None and a.kind == "app" and a.name == "arcsin":
        return sqrt(num(1) - power(a.args[0], 2))
    return app("cos", (p,))


def sin(p):
    p = coerce(p)
    q = _pi_multiple(p)
    if q is not None and (2 * q).denominator == 1:
        return num([0, 1, 0, -1][int(2 * q) % 4])
    s = 1
    if lead(p) < 0:
        p, s = -p, -1
    a = p.atom()
    if a is not None and a.kind == "app" and a.name == "arcsin":
        return scale(a.args[0], s)
    return scale(app("sin", (p,)), s)


def exp(p):
    p = coerce(p)
    if p.const() == 0:
        return num(1)
    return app("exp", (p,))


def arcsin(p):
    if p.const() == 0:
        return num(0)
    if lead(p) < 0:
        return -app("arcsin", (-p,))
    return app("arcsin", (p,))


def surd_interval(p):
    """Rational bounds of a polynomial in square roots of constants, or None when it has other atoms."""
    import math
    S = 10 ** 60
    lo = hi = Fraction(0)
    for mono, c in p.m:
        l = h = Fraction(1)
        for a, e in mono:
            A = ATOMS[a]
            if A.kind != "app" or A.name != "sqrt" or not isinstance(e, int) or e < 0:
                return None
            k = A.args[0].const()
            if k is None or k < 0:
                return None
            r = math.isqrt(int(k.numerator * S * S // k.denominator))
            l, h = l * Fraction(r, S) ** e, h * Fraction(r + 1, S) ** e
        lo, hi = (lo + c * l, hi + c * h) if c >= 0 else (lo + c * h, hi + c * l)
    return lo, hi


def floor(p):
    c = p.const()
    if c is not None:
        import math
        return num(math.floor(c))
    b = surd_interval(p)
    if b is not None:
        import math
        if math.floor(b[0]) == math.floor(b[1]):
            return num(math.floor(b[0]))
    if p.sort == "I":
        return p
    # integer parts move out
    ints, rest = {}, {}
    for mono, c in p.m:
        if c.denominator == 1 and all(ATOMS[a].sort == "I" for a, _ in mono):
            ints[mono] = c
        else:
            rest[mono] = c
    if ints:
        return add(_mk_poly(ints), floor(_mk_poly(rest)))
    return app("floor", (p,), "I")


def ceil(p):
    return -floor(-p)


def rint(p):
    c = p.const()
    if c is not None:
        return num(round(c))
    if p.sort == "I":
        return p
    return app("rint", (p,), "I")


def trunc(p):
    c = p.const()
    if c is not None:
        return num(int(c))
    if p.sort == "I":
        return p
    return ite(le(num(0), p), floor(p), -floor(-p))


def fdiv(p, q):
    """Integer floor division."""
    c, k = p.const(), q.const()
    if k is not None and k != 0:
        if c is not None:
            import math
            return num(math.floor(c / k))
        out, rest = {}, {}
        for mono, cc in p.m:
            z = cc / k
            if z.denominator == 1 and mono:
                out[mono] = z
            else:
                rest[mono] = cc
        r = _mk_poly(rest)
        rc = r.const()
        if rc is not None:
            import math
            return add(_mk_poly(out), num(math.floor(rc / k)))
        c0 = dict(r.m).get((), Fraction(0))
        import math
        w = math.floor(c0 / k)
        if w:
            r = r - num(w * k)
        return psum([_mk_poly(out), num(w), app("fdiv", (r, q), "I")])
    if c == 0:
        return num(0)
    # symbolic divisor: exact multiples divide out
    if len(q.m) == 1 and prove_nonzero(q):
        qm, qc = q.m[0]
        out, rest = {}, {}
        for mono, cc in p.m:
            d = dict(mono)
            ok = (cc / qc).denominator == 1
            for a, e in qm:
                if d.get(a, 0) >= e:
                    d[a] -= e
                else:
                    ok = False
            if ok:
                out[tuple(sorted((a, e) for a, e in d.items() if e))] = cc / qc
            else:
                rest[mono] = cc
        r = _mk_poly(rest)
        if not r.m:
            return _mk_poly(out)
        if p.sort == "I" and q.sort == "I" and _small(r, q):
            return _mk_poly(out)
        return add(_mk_poly(out), app("fdiv", (r, q), "I"))
    if p.sort == "I" and q.sort == "I":
        w, r = _polydiv(p, q)
        if w.m and prove_nonzero(q):
            if not r.m or _small(r, q):
                return w
            if _small(r + q, q):
                return w - num(1)
            return add(w, app("fdiv", (r, q), "I"))
        if r.m and p.const() is None and _small(p, q):
            return num(0)
    return app("fdiv", (p, q), "I")


def _polydiv(p, q):
    """p = w q + r with integer coefficients in w: division by one polynomial, in a degree order."""
    def key(t):
        return sum(e for _, e in t[0]), sorted(t[0], reverse=True)
    if any(e < 0 for m, _ in p.m + q.m for _, e in m) or not q.m:
        return num(0), p
    (lm, lc) = max(q.m, key=key)
    lm = dict(lm)
    w, r = num(0), num(0)
    for _ in range(24):
        if not p.m:
            break
        m, c = max(p.m, key=key)
        d = dict(m)
        lead_t = _mk_poly({m: c})
        if (c / lc).denominator == 1 and all(d.get(a, 0) >= e for a, e in lm.items()):
            for a, e in lm.items():
                d[a] -= e
            t = _mk_poly({tuple(sorted((a, e) for a, e in d.items() if e)): c / lc})
            w, p = w + t, p - t * q
        else:
            r, p = r + lead_t, p - lead_t
    return w, r + p


def _small(r, q):
    """0 <= r < q on this path."""
    if STATE["prove"] is None:
        return False
    k = ("small", r.id, q.id)
    v = STATE["nonneg"].get(k)
    if v is None:
        v = STATE["nonneg"][k] = STATE["prove"](band(le(num(0), r), lt(r, q)))
    return bool(v)


def mod(p, q):
    return p - q * fdiv(p, q)


def ite(c, a, b):
    a, b = coerce(a), coerce(b)
    if c.kind == "T":
        return a
    if c.kind == "F":
        return b
    if a is b:
        return a
    if c.kind == "not":
        c, a, b = c.args[0], b, a
    # a comparison and its negation get the same form
    if c.kind in ("lt", "le"):
        n = bnot(c)
        if n.kind in ("lt", "le") and n.id < c.id:
            c, a, b = n, b, a
    # nested ite on the same condition
    A, Bt = a.atom(), b.atom()
    if A is not None and A.kind == "ite" and A.args[0] is c:
        a = A.args[1]
    if Bt is not None and Bt.kind == "ite" and Bt.args[0] is c:
        b = Bt.args[2]
    if a is b:
        return a
    sort = "I" if a.sort == "I" and b.sort == "I" else "R"
    return mono1(_mk_atom("ite", None, (c, a, b), sort))


def maxv(a, b):
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return ite(le(b, a), a, b)


def minv(a, b):
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return ite(le(a, b), a, b)


def atan2(y, x):
    return app("atan2", (y, x))


# ---------------------------------------------------------------------------------------- binders

def ssum(sizes, fn):
    """Sum over the box [0,sizes) of the Poly-valued function fn(index list)."""
    sizes = [coerce(s) for s in sizes]
    cs = [s.const() for s in sizes]
    if any(c == 0 for c in cs):
        return num(0)
    # expand small concrete axes
    for i, c in enumerate(cs):
        if c is not None and c <= 64:
            rest = sizes[:i] + sizes[i + 1:]
            ps = [ssum(rest, lambda idx, k=k: fn(idx[:i] + [num(k)] + idx[i:])) for k in range(int(c))]
            return psum(ps)
    if not sizes:
        return fn([])
    vs = [fresh("u", "I") for _ in sizes]
    body = fn([mono1(v) for v in vs])
    return ssum_body(sizes, vs, body)


def drop_const(e, idx):
    """An element less the additive terms that do not depend on the index (an argmax does not see them)."""
    if not isinstance(e, Poly):
        return e
    vids = {i.atom().id for i in idx if i.atom() is not None}
    return _mk_poly({m: c for m, c in e.m if any(v in ATOMS[x].fv for x, _ in m for v in vids)})


def _pull_free(body, vids):
    """ite(c, f a, f b) with a factor f that does not depend on the summation indices becomes f ite(c, a, b)."""
    sub = {}
    for a in body.atoms():
        A = ATOMS[a]
        if A.kind != "ite":
            continue
        f = None
        for p in A.args[1:]:
            for mono, c in p.m:
                d = {x: e for x, e in mono if not any(v in ATOMS[x].fv for v in vids)}
                f = d if f is None else {x: min(e, d[x]) for x, e in f.items() if x in d and d[x] * e > 0}
        if not f or any(e < 0 or not isinstance(e, int) for e in f.values()):
            continue

        def strip(p):
            return _mk_poly({tuple(sorted((x, e - f.get(x, 0)) for x, e in mono if e != f.get(x, 0))): c for mono, c in p.m})
        sub[a] = mul(_mk_poly({tuple(sorted(f.items())): Fraction(1)}), ite(A.args[0], strip(A.args[1]), strip(A.args[2])))
    return subst_atoms(body, sub) if sub else body


SUM_HOOKS = []      # fn(sizes, vs, body) -> (sizes, vs, body) or None


def ssum_body(sizes, vs, body):
    for h in SUM_HOOKS:
        r = h(sizes, vs, body)
        if r is not None:
            return ssum_body(*r)
    vids = [v.id for v in vs]
    out = num(0)
    vol = num(1)
    for s in sizes:
        vol = mul(vol, s)
    body = _pull_free(body, vids)
    for mono, c in body.m:
        free, bound = [], []
        for a, e in mono:
            (bound if any(v in ATOMS[a].fv for v in vids) else free).append((a, e))
        fp = _mk_poly({tuple(free): c})
        if not bound:
            out = add(out, mul(fp, vol))
            continue
        # Fubini: a sum of (factors times) a sum over an independent box is one sum
        inner = [(a, e) for a, e in bound if ATOMS[a].kind == "sum"]
        if len(inner) == 1 and inner[0][1] == 1:
            L = ATOMS[inner[0][0]].args[0]
            if not any(v in s.fv for v in vids for s in L.sizes):
                ws = [fresh("u", "I") for _ in L.sizes]
                b2 = L.open([mono1(w) for w in ws])[0]
                rest = _mk_poly({tuple(x for x in bound if x != inner[0]): Fraction(1)})
                out = add(out, mul(fp, ssum_body(list(sizes) + list(L.sizes), list(vs) + ws, mul(rest, b2))))
                continue
        bp = _mk_poly({tuple(bound): Fraction(1)})
        out = add(out, mul(fp, sum_atom(sizes, vs, bp)))
    return out


def sum_atom(sizes, vs, bp):
    # axes the body does not depend on are multiplicities
    keep = [(s, v) for s, v in zip(sizes, vs) if v.id in bp.fv]
    fac = num(1)
    for s, v in zip(sizes, vs):
        if v.id not in bp.fv:
            fac = mul(fac, s)
    sizes, vs = [s for s, _ in keep], [v for _, v in keep]
    lvl = 1 + bp.level
    # order of the axes does not matter: two orders are tried, the smaller key wins
    best = None
    import itertools
    perms = itertools.permutations(range(len(vs))) if len(vs) <= 3 else [range(len(vs))]
    for perm in perms:
        sub = {vs[j].id: mono1(bv(lvl, i)) for i, j in enumerate(perm)}
        L = Lam([sizes[j] for j in perm], [subst(bp, sub)], lvl)
        if best is None or L.key() < best.key():
            best = L
    a = _mk_atom("sum", None, (best,), bp.sort)
    return mul(fac, mono1(a))


def op(name, params, lams, idx, part, sort="R"):
    """Output number `part` of the opaque operator `name` applied to closed arrays, at index idx."""
    return mono1(_mk_atom("op", name, tuple(lams) + tuple(idx), sort, (params, part, len(lams))))


# ------------------------------------------------------------------------------------------- Bool

class B:
    __slots__ = ("id", "kind", "args", "name", "level", "fv", "hasite")

    def __repr__(self):
        return showb(self)


BTERMS = []


def _mk_b(kind, args=(), name=None):
    key = (kind, name, tuple(_k(a) for a in args))
    b = _btab.get(key)
    if b is None:
        b = B()
        b.id = len(_btab)
        b.kind, b.args, b.name = kind, tuple(args), name
        lvl, fv, it = 0, frozenset(), False
        for x in args:
            lvl = max(lvl, x.level)
            fv |= x.fv
            it = it or x.hasite
        b.level, b.fv, b.hasite = lvl, fv, it
        _btab[key] = b
        BTERMS.append(b)
    return b


T = _mk_b("T")
F = _mk_b("F")


def bconst(x):
    return T if x else F


def bvar(name):
    return _mk_b("bvar", (), name)


def bapp(name, args):
    return _mk_b("bapp", args, name)


def _norm_cmp(p):
    """Scale p by a positive rational to primitive form."""
    from math import gcd
    l = 1
    for _, c in p.m:
        l = l * c.denominator // gcd(l, c.denominator)
    g = 0
    for _, c in p.m:
        g = gcd(g, int(c * l))
    return scale(p, Fraction(l, g)) if g and (l != 1 or g != 1) else p


def le(a, b):
    """a <= b"""
    p = coerce(a) - coerce(b)
    c = p.const()
    if c is not None:
        return T if c <= 0 else F
    isint = p.sort == "I"
    p = _norm_cmp(p)
    if isint:
        p = _tighten(p)
    return _mk_b("le", (p,))


def _tighten(p):
    """Integer p <= 0: divide by the gcd of the non constant coefficients, rounding the constant."""
    from math import gcd, ceil as mceil
    g, c0 = 0, Fraction(0)
    for mono, c in p.m:
        if mono == ():
            c0 = c
        else:
            g = gcd(g, int(c))
    if g > 1:
        d = {mono: c / g for mono, c in p.m if mono != ()}
        d[()] = Fraction(mceil(c0 / g))
        p = _mk_poly(d)
    return p


def lt(a, b):
    """a < b"""
    p = coerce(a) - coerce(b)
    c = p.const()
    if c is not None:
        return T if c < 0 else F
    if p.sort == "I":
        return le(p + num(1), num(0))
    return _mk_b("lt", (_norm_cmp(p),))


def eq(a, b):
    p = coerce(a) - coerce(b)
    c = p.const()
    if c is not None:
        return T if c == 0 else F
    p = _norm_cmp(p)
    if lead(p) < 0:
        p = -p
    return _mk_b("eq", (p,))


def bnot(b):
    if b is T:
        return F
    if b is F:
        return T
    if b.kind == "not":
        return b.args[0]
    if b.kind == "le":
        return lt(num(0), b.args[0])
    if b.kind == "lt":
        return le(num(0), b.args[0])
    return _mk_b("not", (b,))


def band(*bs):
    out = []
    for b in bs:
        if b is F:
            return F
        if b is T:
            continue
        for x in (b.args if b.kind == "and" else (b,)):
            if x not in out:
                out.append(x)
    for x in out:
        if bnot(x) in out:
            return F
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return _mk_b("and", tuple(sorted(out, key=lambda b: b.id)))


def bor(*bs):
    return bnot_deep(band(*[bnot_deep(b) for b in bs]))


def bnot_deep(b):
    if b.kind == "and":
        return _mk_b("or", tuple(sorted((bnot_deep(x) for x in b.args), key=lambda b: b.id)))
    if b.kind == "or":
        return band(*[bnot_deep(x) for x in b.args])
    return bnot(b)


def implies(a, b):
    return bor(bnot_deep(a), b)


def iff(a, b):
    if a is b:
        return T
    if a in (T, F):
        return b if a is T else bnot_deep(b)
    if b in (T, F):
        return a if b is T else bnot_deep(a)
    return band(implies(a, b), implies(b, a))


def bite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot_deep(c), b))


def b2i(b):
    """Bool as 0/1."""
    return ite(b, num(1), num(0))


# ------------------------------------------------------------------------------------ substitution

def subst(t, sub, bsub=None, memo=None):
    """Replace variable atoms by Polys (sub: atom id -> Poly) and Bool terms (bsub: B id -> B)."""
    if not sub and not bsub:
        return t
    if memo is None:
        memo = {}
    keys = (frozenset(sub), tuple({BTERMS[i].fv for i in bsub}) if bsub else ())
    return _subst(t, sub, bsub or {}, memo, keys)


def _touches(keys, fv):
    """Can a term with these variables contain something to replace?"""
    k, bf = keys
    if k and not k.isdisjoint(fv):
        return True
    for f in bf:
        if f <= fv:
            return True
    return False


def _subst(t, sub, bsub, memo, keys):
    if isinstance(t, Lam):
        if not _touches(keys, t.fv):
            return t
        sizes = [_subst(s, sub, bsub, memo, keys) for s in t.sizes]
        # substituted terms may bring deeper binders in: renumber
        bodies = [_subst(b, sub, bsub, memo, keys) for b in t.bodies]
        need = 1 + max([0] + [b.level for b in bodies])
        if need != t.lvl:
            s2 = {bv(t.lvl, i).id: mono1(bv(need, i)) for i in range(len(sizes))}
            # rename through fresh variables: bv(need,.) may be in use deeper down
            tmp = {bv(t.lvl, i).id: mono1(fresh("r", "I")) for i in range(len(sizes))}
            bodies = [subst(b, tmp) for b in bodies]
            need = 1 + max([0] + [b.level for b in bodies])
            back = {tmp[k].atom().id: mono1(bv(need, i)) for i, k in enumerate(tmp)}
            bodies = [subst(b, back) for b in bodies]
        return Lam(sizes, bodies, need)
    if isinstance(t, B):
        if bsub and t.id in bsub:
            return bsub[t.id]
        if not _touches(keys, t.fv):
            return t
        k = ("b", t.id)
        if k in memo:
            return memo[k]
        args = [_subst(a, sub, bsub, memo, keys) for a in t.args]
        r = _rebuild_b(t, args)
        if bsub and r.id in bsub:
            r = bsub[r.id]
        memo[k] = r
        return r
    # Poly
    if not _touches(keys, t.fv):
        return t
    k = ("p", t.id)
    if k in memo:
        return memo[k]
    parts = []
    const = {}
    for mono, c in t.m:
        changed = False
        acc = None
        keep = []
        for a, e in mono:
            A = ATOMS[a]
            if _touches(keys, A.fv):
                v = _subst_atom(A, sub, bsub, memo, keys)
                if len(v.m) == 1 and v.m[0][0] == ((a, 1),) and v.m[0][1] == 1:
                    keep.append((a, e))
                    continue
                f = v if e == 1 else power(v, e)
                acc = f if acc is None else mul(acc, f)
                changed = True
            else:
                keep.append((a, e))
        if not changed:
            const[mono] = const.get(mono, 0) + c
        else:
            parts.append(mul(_mk_poly({tuple(keep): c}), acc))
    if const:
        parts.append(_mk_poly(const))
    r = psum(parts)
    memo[k] = r
    return r


def _subst_atom(A, sub, bsub, memo, keys):
    if A.id in sub:
        return sub[A.id]
    if A.kind == "var":
        return mono1(A)
    k = ("a", A.id)
    if k in memo:
        return memo[k]
    if A.kind == "ite" and bsub:
        c = _subst(A.args[0], sub, bsub, memo, keys)
        if c is T:
            r = _subst(A.args[1], sub, bsub, memo, keys)
        elif c is F:
            r = _subst(A.args[2], sub, bsub, memo, keys)
        else:
            r = ite(c, _subst(A.args[1], sub, bsub, memo, keys), _subst(A.args[2], sub, bsub, memo, keys))
    else:
        args = [_subst(a, sub, bsub, memo, keys) for a in A.args]
        if all(x is y for x, y in zip(args, A.args)):
            r = mono1(A)
        else:
            r = rebuild_atom(A, args)
    memo[k] = r
    return r


def subst_atoms(t, sub):
    """Replace top level occurrences of arbitrary atoms (atom id -> Poly), also inside arguments outside binders."""
    out = []
    for mono, c in t.m:
        p = num(c)
        for a, e in mono:
            v = sub.get(a)
            p = mul(p, power(v, e) if v is not None else _mk_poly({((a, e),): Fraction(1)}))
        out.append(p)
    return psum(out)


def replace(t, sub, memo=None):
    """Replace arbitrary atoms (atom id -> Poly) and Bools (("b", id) -> B), everywhere outside binders that capture."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(replace(x, sub, memo) for x in t)
    if isinstance(t, Lam):
        bodies = [replace(b, sub, memo) for b in t.bodies]
        sizes = [replace(x, sub, memo) for x in t.sizes]
        if all(a is b for a, b in zip(bodies, t.bodies)) and all(a is b for a, b in zip(sizes, t.sizes)):
            return t
        vs = [fresh("u", "I") for _ in sizes]
        op_ = t.open([mono1(v) for v in vs])
        return lam(sizes, lambda idx: [subst(replace(b, sub, memo), {v.id: i for v, i in zip(vs, idx)}) for b in op_])
    k = (isinstance(t, B), t.id)
    r = memo.get(k)
    if r is not None:
        return r
    if isinstance(t, B):
        r = sub.get(("b", t.id))
        if r is None:
            args = [replace(a, sub, memo) for a in t.args]
            r = t if all(x is y for x, y in zip(args, t.args)) else _rebuild_b(t, args)
    else:
        out = []
        for mono, c in t.m:
            p = num(c)
            for a, e in mono:
                v = sub.get(a)
                if v is None:
                    A = ATOMS[a]
                    args = [replace(x, sub, memo) for x in A.args]
                    v = mono1(A) if all(x is y for x, y in zip(args, A.args)) else rebuild_atom(A, args)
                p = mul(p, power(v, e))
            out.append(p)
        r = psum(out)
    memo[k] = r
    return r


REBUILD = {}


def rebuild_atom(A, args):
    if A.kind == "app" and A.name == "sqrt" and A.args[0].id in SQUARES:
        SQUARES.add(args[0].id)     # an instance of a sum of squares is one
    if A.kind == "inv":
        return inv(args[0])
    if A.kind == "ite":
        return ite(*args)
    if A.kind == "sum":
        L = args[0]
        vs = [fresh("u", "I") for _ in L.sizes]
        body = L.open([mono1(v) for v in vs])[0]
        # expand axes that became small constants
        if any(s.const() is not None for s in L.sizes):
            return ssum(L.sizes, lambda idx: L.open(idx)[0])
        return ssum_body(list(L.sizes), vs, body)
    if A.kind == "op":
        h = REBUILD.get(A.name)
        if h is not None:
            r = h(A, args)
            if r is not None:
                return r
        return mono1(_mk_atom("op", A.name, tuple(args), A.sort, A.params))
    if A.kind == "app":
        f = {"sqrt": sqrt, "cos": cos, "sin": sin, "exp": exp, "abs": absv, "floor": floor, "rint": rint,
             "arcsin": arcsin}.get(A.name)
        if f is not None:
            return f(args[0])
        if A.name == "fdiv":
            return fdiv(*args)
        h = REBUILD.get(A.name)
        if h is not None:
            r = h(A, args)
            if r is not None:
                return r
        return mono1(_mk_atom("app", A.name, tuple(args), A.sort, A.params))
    raise AssertionError(A.kind)


def _rebuild_b(t, args):
    if t.kind == "le":
        return le(args[0], num(0))
    if t.kind == "lt":
        return lt(args[0], num(0))
    if t.kind == "eq":
        return eq(args[0], num(0))
    if t.kind == "not":
        return bnot_deep(args[0])
    if t.kind == "and":
        return band(*args)
    if t.kind == "or":
        return bor(*args)
    return _mk_b(t.kind, tuple(args), t.name)


PI = mono1(var("pi", "R"))


# -------------------------------------------------------------------------------------------- misc

def show(p):
    if not p.m:
        return "0"
    out = []
    for mono, c in p.m:
        s = "*".join(show_atom(ATOMS[a]) + (f"^{e}" if e != 1 else "") for a, e in mono)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = f"{c}*{s}"
        out.append(s)
    return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]


def show_atom(a):
    if a.kind == "var":
        return a.name
    if a.kind == "inv":
        return f"1/{show(a.args[0])}"
    if a.kind == "ite":
        return f"ite({showb(a.args[0])}, {show(a.args[1])}, {show(a.args[2])})"
    if a.kind == "sum":
        L = a.args[0]
        return f"SUM[{','.join(map(show, L.sizes))}]{show(L.bodies[0])}"
    if a.kind == "op":
        n = a.params[2]
        return f"{a.name}.{a.params[1]}<{';'.join(','.join(_sh(b) for b in l.bodies) for l in a.args[:n])}>({','.join(map(show, a.args[n:]))})"
    return f"{a.name}({', '.join(_sh(x) for x in a.args)})"


def _sh(x):
    if isinstance(x, Lam):
        return "lam " + ",".join(_sh(b) for b in x.bodies)
    return show(x) if isinstance(x, Poly) else showb(x)


def showb(b):
    if b.kind in ("T", "F"):
        return b.kind
    if b.kind == "le":
        return f"{show(b.args[0])}<=0"
    if b.kind == "lt":
        return f"{show(b.args[0])}<0"
    if b.kind == "eq":
        return f"{show(b.args[0])}==0"
    if b.kind == "not":
        return f"!({showb(b.args[0])})"
    if b.kind in ("and", "or"):
        return "(" + f" {b.kind} ".join(map(showb, b.args)) + ")"
    if b.kind == "bvar":
        return b.name
    return f"{b.name}({', '.join(_sh(x) for x in b.args)})"


def reset():
    """Forget the facts of the previous path (terms stay interned)."""
    STATE["nonzero"] = set()
    STATE["nonneg"] = {}
