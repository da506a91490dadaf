"""Translation of terms to z3 and the proof procedures."""
import time
from fractions import Fraction

import z3

from . import term as T, numev
from .term import ATOMS, B, Poly, Lam, num, eq, le, lt, band, bor, bnot, bnot_deep, implies, ite

STATS = {"queries": 0, "time": 0.0, "unknown": 0, "cvc5": 0, "cvc5_time": 0.0, "ring": 0}
_zatom, _zax, _zb = {}, {}, {}
_real, _int = z3.RealSort(), z3.IntSort()
TIMEOUT = 4000


def _real_of(e):
    return z3.ToReal(e) if e.sort() == _int else e


def zp(p):
    """z3 expression of a Poly."""
    isint = p.sort == "I"
    out = []
    for mono, c in p.m:
        fs = []
        if isint:
            fs.append(z3.IntVal(int(c)))
        else:
            fs.append(z3.RealVal(str(c)))
        for a, e in mono:
            z = za(ATOMS[a])
            z = z if isint else _real_of(z)
            fs.extend([z] * e)
        r = fs[0]
        if len(fs) > 1:
            if c == 1:
                fs = fs[1:]
            r = fs[0]
            for f in fs[1:]:
                r = r * f
        out.append(r)
    if not out:
        return z3.IntVal(0) if isint else z3.RealVal(0)
    r = out[0]
    for o in out[1:]:
        r = r + o
    return r


_funcs = {}


def _func(name, sorts, res):
    k = (name, tuple(str(s) for s in sorts), str(res))
    if k not in _funcs:
        _funcs[k] = z3.Function(name, *sorts, res)
    return _funcs[k]


def za(A):
    z = _zatom.get(A.id)
    if z is not None:
        return z
    sort = _int if A.sort == "I" else _real
    if A.kind == "ite":
        c, a, b = zb(A.args[0]), zp(A.args[1]), zp(A.args[2])
        if sort == _real:
            a, b = _real_of(a), _real_of(b)
        z = z3.If(c, a, b)
    elif A.kind == "app" and A.name not in INTERP and all(isinstance(x, Poly) for x in A.args) and A.args:
        args = [zp(x) for x in A.args]
        z = _func(f"{A.name}{A.params or ''}", [a.sort() for a in args], sort)(*args)
    elif A.kind == "app" and A.name == "abs":
        p = zp(A.args[0])
        z = z3.If(p >= 0, p, -p)
    else:
        nm = A.name if A.kind == "var" else f"{A.kind}_{A.name}_{A.id}"
        z = z3.Const(nm, sort)
    _zatom[A.id] = z
    return z


INTERP = {"sqrt", "cos", "sin", "exp", "floor", "fdiv", "rint", "abs", "arcsin"}


def axioms(A):
    """Defining axioms of an atom (z3)."""
    r = _zax.get(A.id)
    if r is not None:
        return r
    r = []
    if A.kind == "var" and A.name == "pi":
        z = za(A)
        r += [z > z3.RealVal("3.14159"), z < z3.RealVal("3.1416")]
    elif A.kind == "inv":
        z, p = za(A), _real_of(zp(A.args[0]))
        r += [z3.Implies(p != 0, z * p == 1), z3.Implies(p > 0, z > 0), z3.Implies(p < 0, z < 0)]
    elif A.kind == "app":
        n = A.name
        if n == "sqrt":
            z, p = za(A), _real_of(zp(A.args[0]))
            r += [z3.Implies(p >= 0, z * z == p), z >= 0, z3.Implies(p > 0, z > 0)]
        elif n in ("cos", "sin"):
            z = za(A)
            r += [z <= 1, z >= -1]
            o = T._atab.get(("app", "sin" if n == "cos" else "cos", (A.args[0].id,), "R", None))
            if o is not None:
                w = za(o)
                r += [z * z + w * w == 1]
        elif n == "exp":
            r += [za(A) > 0]
        elif n == "floor":
            z, p = za(A), zp(A.args[0])
            r += [z3.ToReal(z) <= p, p < z3.ToReal(z) + 1]
        elif n == "rint":
            z, p = za(A), zp(A.args[0])
            h = z3.RealVal("1/2")
            r += [z3.ToReal(z) - h <= p, p <= z3.ToReal(z) + h,
                  z3.Implies(z3.Or(z3.ToReal(z) - h == p, p == z3.ToReal(z) + h), z % 2 == 0)]
        elif n == "fdiv":
            z, a, b = za(A), zp(A.args[0]), zp(A.args[1])
            if a.sort() == _real or b.sort() == _real:
                a, b, zz = _real_of(a), _real_of(b), z3.ToReal(z)
            else:
                zz = z
            cb = A.args[1].const()
            if cb is not None and cb > 0:
                r += [b * zz <= a, a < b * zz + b]
            else:
                r += [z3.Implies(b > 0, z3.And(b * zz <= a, a < b * zz + b)),
                      z3.Implies(b < 0, z3.And(b * zz >= a, a > b * zz + b)),
                      z3.Implies(z3.And(b > 0, a >= 0), zz >= 0), z3.Implies(z3.And(b > 0, a >= 0, b >= 1), zz <= a)]
        elif n == "arcsin":
            z, p = za(A), _real_of(zp(A.args[0]))
            pi = za(T.PI.atom())
            r += [2 * z <= pi, 2 * z >= -pi, z3.Implies(z3.And(p >= 0, p <= 1), z >= 0), z3.Implies(p > 0, z > 0)]
        elif n == "atan2":
            z = za(A)
            pi = za(T.PI.atom())
            r += [z <= pi, z >= -pi]
        elif n in T.RANGES:
            lo, hi = T.RANGES[n]
            r += [za(A) >= lo, za(A) <= hi]
    h = AXIOM_HOOKS.get((A.kind, A.name))
    if h is not None:
        r += [zb(b) for b in h(A)]
    _zax[A.id] = r
    return r


AXIOM_HOOKS = {}


def zb(b):
    z = _zb.get(b.id)
    if z is not None:
        return z
    k = b.kind
    if k == "T":
        z = z3.BoolVal(True)
    elif k == "F":
        z = z3.BoolVal(False)
    elif k == "le":
        z = zp(b.args[0]) <= 0
    elif k == "lt":
        z = zp(b.args[0]) < 0
    elif k == "eq":
        z = zp(b.args[0]) == 0
    elif k == "not":
        z = z3.Not(zb(b.args[0]))
    elif k == "and":
        z = z3.And(*[zb(x) for x in b.args])
    elif k == "or":
        z = z3.Or(*[zb(x) for x in b.args])
    elif k == "bvar":
        z = z3.Bool(b.name)
    elif k == "bapp":
        if all(isinstance(x, Poly) for x in b.args) and b.args:
            args = [zp(x) for x in b.args]
            z = _func("B_" + b.name, [a.sort() for a in args], z3.BoolSort())(*args)
        else:
            z = z3.Bool(f"bapp_{b.name}_{b.id}")
    _zb[b.id] = z
    return z


_deep = {}


def deep_atoms(t):
    """All atoms whose axioms a term needs (not those under binders)."""
    key = (isinstance(t, B), t.id)
    r = _deep.get(key)
    if r is not None:
        return r
    out = set()
    if isinstance(t, Poly):
        for a in t.atoms():
            A = ATOMS[a]
            out.add(a)
            for x in A.args:
                if not isinstance(x, Lam):
                    out |= deep_atoms(x)
            for h in DEP_HOOKS.get((A.kind, A.name), ()):
                pass
    else:
        for x in t.args:
            if not isinstance(x, Lam):
                out |= deep_atoms(x)
    r = _deep[key] = frozenset(out)
    return r


DEP_HOOKS = {}


class Facts:
    """Hypotheses: quantifier free Bools and universally quantified ones."""

    def __init__(self, bs=(), foralls=()):
        self.bs = list(bs)
        self.foralls = list(foralls)      # (Lam with one Bool body, guard over indices is implied: 0<=i<size)

    def copy(self):
        return Facts(self.bs, self.foralls)


def _closure(atoms):
    """Atoms reached through axiom hooks (their axioms may mention other atoms)."""
    todo, seen = list(atoms), set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        A = ATOMS[a]
        h = AXIOM_HOOKS.get((A.kind, A.name))
        if h is not None:
            for b in h(A):
                for x in deep_atoms(b):
                    if x not in seen:
                        todo.append(x)
    return seen


def instances(facts, atoms):
    """Instances of the universal facts for the applications that occur in the query."""
    out = []
    if not facts.foralls:
        return out
    byname = {}
    for a in atoms:
        A = ATOMS[a]
        if A.kind in ("app", "op"):
            byname.setdefault((A.kind, A.name), []).append(A)
    for bsrc in facts.bs:
        pass
    for L in facts.foralls:
        bvs = [T.bv(L.lvl, i) for i in range(len(L.sizes))]
        pats = []
        for a in _all_atoms(L.bodies[0]):
            A = ATOMS[a]
            if A.kind in ("app", "op") and any(isinstance(x, Poly) and x.atom() in bvs for x in A.args):
                pats.append(A)
        seen = set()
        for P in pats:
            for A in byname.get((P.kind, P.name), []):
                if len(A.args) != len(P.args) or A is P:
                    continue
                m = {}
                ok = True
                for x, y in zip(P.args, A.args):
                    if isinstance(x, Poly) and x.atom() in bvs:
                        if x.atom() in m and m[x.atom()] is not y:
                            ok = False
                        m[x.atom()] = y
                    elif x is not y and not (isinstance(x, Lam) and x.key() == y.key()):
                        ok = False
                if ok and len(m) == len(bvs):
                    idx = [m[v] for v in bvs]
                    k = tuple(i.id for i in idx)
                    if k in seen:
                        continue
                    seen.add(k)
                    g = [le(num(0), i) for i in idx] + [lt(i, s) for i, s in zip(idx, L.sizes)]
                    out.append(implies(band(*g), L.open(idx)[0]))
        if len(bvs) == 0:
            out.append(L.bodies[0])
    return out


def quiet_instances(facts, atoms):
    if not facts.foralls:
        return []
    h = T.STATE["prove"]
    T.STATE["prove"] = None
    try:
        return instances(facts, atoms)
    finally:
        T.STATE["prove"] = h


_alla = {}


def _all_atoms(t):
    """All atoms, also under binders."""
    if isinstance(t, Lam):
        out = set()
        for x in list(t.sizes) + list(t.bodies):
            out |= _all_atoms(x)
        return out
    key = (isinstance(t, B), t.id)
    r = _alla.get(key)
    if r is None:
        out = set()
        if isinstance(t, Poly):
            for a in t.atoms():
                out.add(a)
                for x in ATOMS[a].args:
                    out |= _all_atoms(x)
        else:
            for x in t.args:
                out |= _all_atoms(x)
        r = _alla[key] = frozenset(out)
    return r


_cache = {}


def check(goal, facts, timeout=None, want_model=False, quick=False):
    """'proved', 'refuted' or 'unknown' (and the model, if wanted)."""
    if goal is T.T:
        return ("proved", None)
    key = (goal.id, tuple(sorted({b.id for b in facts.bs})), tuple(id(f) for f in facts.foralls), want_model)
    if key in _cache:
        return _cache[key]
    if quick and (key, 0) in _cache:
        return _cache[key, 0]
    neg = bnot_deep(goal)
    bs = [b for b in facts.bs if b is not T.T]
    if neg is T.F or T.F in bs:
        return ("proved", None)
    if goal in bs:
        return ("proved", None)
    atoms = set(deep_atoms(neg))
    for b in bs:
        atoms |= deep_atoms(b)
    inst = []
    for _ in range(2):
        new = quiet_instances(facts, atoms)
        if len(new) == len(inst):
            break
        inst = new
        for b in inst:
            atoms |= deep_atoms(b)
    atoms = _closure(atoms)
    t0 = time.time()
    r = None
    if not want_model:
        r = INC.check(bs, inst, atoms, neg, (40 if quick is True else quick) if quick else 250)
    if r == z3.unknown and quick:
        STATS["queries"] += 1
        STATS["time"] += time.time() - t0
        out = _cache[key, 0] = ("unknown", None)
        return out
    if r == z3.unknown and numev.refute(goal, facts) is not None:
        STATS["numeric"] = STATS.get("numeric", 0) + 1
        out = _cache[key] = ("refuted", None)
        return out
    if r is None or r == z3.unknown:
        s = z3.Solver()
        s.set("timeout", timeout or TIMEOUT)
        for b in bs + inst:
            s.add(zb(b))
        for a in sorted(atoms):
            for ax in axioms(ATOMS[a]):
                s.add(ax)
        s.add(zb(neg))
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
    STATS["queries"] += 1
    dt = time.time() - t0
    STATS["time"] += dt
    if SLOW and dt > SLOW:
        print(f"slow {dt:.1f}s {r}: {goal}")
    if r == z3.unsat:
        out = ("proved", None)
    elif r == z3.sat:
        out = ("refuted", s.model() if want_model else None)
    else:
        out = ("unknown", None)
        STATS["unknown"] += 1
    _cache[key] = out
    return out


class Incremental:
    """One solver for successive queries: hypotheses are pushed in order and kept while queries share them."""

    def __init__(self):
        self.s = None
        self.frames = []        # (fact id, atoms whose axioms were asserted in that frame)
        self.n = 0

    def check(self, bs, inst, atoms, neg, ms=250):
        if self.s is None or self.n > 3000:
            self.s = z3.Solver()
            self.frames, self.n, self.ms = [], 0, None
        self.n += 1
        k = 0
        while k < len(self.frames) and k < len(bs) and self.frames[k][0] == bs[k].id:
            k += 1
        if k < len(self.frames):
            self.s.pop(len(self.frames) - k)
            del self.frames[k:]
        have = set()
        for _, f in self.frames:
            have |= f
        for b in bs[k:]:
            self.s.push()
            self.s.add(zb(b))
            new = _closure(deep_atoms(b)) - have
            for a in sorted(new):
                for ax in axioms(ATOMS[a]):
                    self.s.add(ax)
            have |= new
            self.frames.append((b.id, frozenset(new)))
        self.s.push()
        try:
            for b in inst:
                self.s.add(zb(b))
            for a in sorted(set(atoms) - have):
                for ax in axioms(ATOMS[a]):
                    self.s.add(ax)
            self.s.add(zb(neg))
            if ms != self.ms:
                self.s.set("timeout", ms * 3)
                self.ms = ms
            return self.s.check()
        except z3.Z3Exception:
            return z3.unknown
        finally:
            self.s.pop()


INC = Incremental()
SLOW = 0


def feasible(facts, timeout=None):
    """False only when the facts are contradictory."""
    return check(T.F, facts, timeout)[0] != "proved"


# ------------------------------------------------------------------------------------------ prove_eq

class Budget(Exception):
    pass


def relevant(facts, *terms):
    """The facts that share atoms with the terms (a sound weakening)."""
    return facts


def ite_conds(t, limit=1):
    """Conditions of the ites that occur in t outside binders, innermost conditions first."""
    out = []
    seen = set()

    def walk(x):
        if isinstance(x, Lam) or x.id in seen and isinstance(x, Poly):
            return
        if not x.hasite:
            return
        if isinstance(x, Poly):
            seen.add(x.id)
            for a in x.atoms():
                A = ATOMS[a]
                if A.kind == "ite":
                    walk(A.args[0])
                    c = A.args[0]
                    if c not in out:
                        out.append(c)
                    walk(A.args[1])
                    walk(A.args[2])
                else:
                    for y in A.args:
                        walk(y)
        else:
            for y in x.args:
                walk(y)
    walk(t)
    return out


def leaf_conds(c):
    if c.kind in ("and", "or", "not"):
        r = []
        for x in c.args:
            r += leaf_conds(x)
        return r
    return [c]


def assume_in(t, c, val):
    """t with the atomic condition c replaced by its truth value."""
    n = bnot(c)
    bs = {c.id: T.bconst(val)}
    if n.kind != "not":
        bs[n.id] = T.bconst(not val)
    return T.subst(t, {}, bs)


_intonly = {}


def intonly(b):
    """Is the Bool about integers only (variables, floor divisions, ...)?"""
    r = _intonly.get(b.id)
    if r is None:
        r = _intonly[b.id] = all(ATOMS[a].sort == "I" and (ATOMS[a].kind == "var" or ATOMS[a].kind == "app" and ATOMS[a].name not in OPAQUE)
                                 for a in deep_atoms(b)) and not any_bapp(b)
    return r


def any_bapp(b):
    return b.kind in ("bapp", "bvar") or any(isinstance(x, B) and any_bapp(x) for x in b.args)


def settle(d, facts):
    """d with every integer condition that the integer facts decide replaced by its truth value."""
    if not d.hasite:
        return d
    lin = None
    done = set()
    for _ in range(12):
        leaves = []
        for c in ite_conds(d):
            for l in leaf_conds(c):
                if l.id not in done and intonly(l):
                    done.add(l.id)
                    leaves.append(l)
        if not leaves:
            return d
        if lin is None:
            lin = Facts([b for b in facts.bs if intonly(b)])
        bs = {}
        for l in leaves:
            n = bnot_deep(l)
            v = True if check(l, lin)[0] == "proved" else False if check(n, lin)[0] == "proved" else None
            if v is not None:
                bs[l.id] = T.bconst(v)
                m = bnot(l)
                if m.kind != "not":
                    bs[m.id] = T.bconst(not v)
        if bs:
            d = T.subst(d, {}, bs)
            if not d.hasite:
                return d
    return d


_tidied = {}


def tidy(d, facts, depth=0):
    """d with the integer conditions under its binders decided where the bounds of the bound indices decide them."""
    if depth > 3:
        return d
    sub = {}
    for a in deep_atoms(d):
        A = ATOMS[a]
        if A.kind not in ("sum", "op") or not any(isinstance(x, Lam) and any(b.hasite or b.level for b in x.bodies + x.sizes) for x in A.args):
            continue
        lin = [b for b in facts.bs if intonly(b)]
        key = (a, tuple(b.id for b in lin))
        r = _tidied.get(key)
        if r is None:
            r = _tidied[key] = _tidy_atom(A, lin, depth)
        if r is not None and r is not False:
            sub[a] = r
    return T.replace(d, sub) if sub else d


def _tidy_atom(A, lin, depth):
    args, changed = [], False
    for x in A.args:
        if not isinstance(x, Lam):
            args.append(x)
            continue
        sizes = [settle(y, Facts(lin)) for y in x.sizes]
        if any(y is not z for y, z in zip(sizes, x.sizes)):
            changed = True
            x = T.Lam(sizes, x.bodies, x.lvl)
        vs = [T.fresh("t", "I") for _ in x.sizes]
        idx = [T.mono1(v) for v in vs]
        f2 = Facts(lin + [le(num(0), i) for i in idx] + [lt(i, s) for i, s in zip(idx, x.sizes)])
        bodies = x.open(idx)
        new = [tidy(settle(b, f2), f2, depth + 1) if isinstance(b, Poly) else b for b in bodies]
        if all(p is q for p, q in zip(bodies, new)):
            args.append(x)
            continue
        changed = True
        if A.kind == "sum" and not any(y.const() is not None for y in x.sizes):
            return T.ssum_body(list(x.sizes), vs, new[0])
        args.append(T.lam(list(x.sizes), lambda ii: [T.subst(b, {v.id: i for v, i in zip(vs, ii)}) for b in new]))
    return T.rebuild_atom(A, args) if changed else False


_settled = {}


def settle_facts(facts):
    """The facts with the integer conditions inside them decided (by the other, integer, facts)."""
    k = tuple(b.id for b in facts.bs)
    r = _settled.get(k)
    if r is None:
        r = _settled[k] = [b if intonly(b) or not b.hasite else settle(b, facts) for b in facts.bs]
    return Facts(r, facts.foralls)


def prove_zero(d, facts, depth=0, fuel=None):
    """Is the Poly d zero under the facts?  'proved' / 'refuted' (a solver says no) / 'unknown'."""
    if fuel is None:
        fuel = [6000]
    if d.m:
        d = settle(d, facts)
    if not d.m:
        STATS["ring"] += 1
        return "proved"
    fuel[0] -= 1
    if fuel[0] < 0:
        return "unknown"
    conds = ite_conds(d)
    if conds:
        c = None
        for x in conds:
            for l in leaf_conds(x):
                if intonly(l):
                    c = l
                    break
            if c is not None:
                break
        n = None
        if c is None:
            c = leaf_conds(conds[0])[0]
            n = bnot_deep(c)
            # prune, as far as the solver says so quickly
            t = _tries.setdefault(c.id, [0, 0])
            for h, v in ((c, True), (n, False)):
                if h in facts.bs:
                    return prove_zero(assume_in(d, c, v), facts, depth, fuel)
            if t[0] < 4 + 3 * t[1]:
                t[0] += 1
                for h, v in ((c, True), (n, False)):
                    if check(h, facts, quick=True)[0] == "proved":
                        t[1] += 1
                        return prove_zero(assume_in(d, c, v), facts, depth, fuel)
        else:
            n = bnot_deep(c)
        res = "proved"
        for val, h in ((True, c), (False, n)):
            f2 = Facts(facts.bs + [h], facts.foralls)
            x = prove_zero(assume_in(d, c, val), f2, depth, fuel)
            if x == "unknown":
                return x
            if x == "refuted":
                res = x
                LAST["facts"] = LAST.get("facts") or f2
                return res
        return res
    return leaf_zero(d, facts, depth, fuel)


def unit_facts(facts):
    """The facts with decided conditions decided in them and disjunctions reduced by the literals known."""
    fs = settle_facts(facts)
    known = {b.id for b in fs.bs}
    out, changed = [], False
    for b in fs.bs:
        if b.kind == "or":
            rest = [x for x in b.args if bnot_deep(x).id not in known]
            if len(rest) < len(b.args):
                b = bor(*rest)
                changed = True
        out.append(b)
    return Facts(out, facts.foralls) if changed else fs


def sqrt_reduce(d, facts):
    """sqrt(x)^2 = x where the facts show that x is not negative."""
    fs = None
    for mono, _ in d.m:
        for a, e in mono:
            A = ATOMS[a]
            if e < 2 or A.kind != "app" or A.name != "sqrt":
                continue
            fs = fs or unit_facts(facts)
            if check(le(num(0), A.args[0]), fs)[0] != "proved":
                continue
            out = []
            for mo, c in d.m:
                dm = dict(mo)
                k, r = divmod(dm.get(a, 0), 2)
                dm[a] = r
                p = T._mk_poly({tuple(sorted((x, y) for x, y in dm.items() if y)): c})
                out.append(T.mul(p, T.power(A.args[0], k)) if k else p)
            return sqrt_reduce(T.psum(out), facts)
    return d


LAST = {}
_tries = {}      # per condition: attempts to decide it, successes


def leaf_zero(d, facts, depth, fuel):
    """No ites outside binders any more."""
    d0 = d
    # 1. congruence: merge applications with provably equal arguments
    for _ in range(20):
        d2 = congruence(d, facts, depth, fuel)
        if not d2.m:
            STATS["ring"] += 1
            return "proved"
        if d2 is d:
            break
        d = d2
        if ite_conds(d):
            return prove_zero(d, facts, depth, fuel)
    d2 = trig_reduce(polar_reduce(sqrt_reduce(d, facts)))
    d2 = clear_inv(d2, facts)
    d2 = trig_reduce(d2)
    if not d2.m:
        STATS["ring"] += 1
        return "proved"
    pt = numev.refute(eq(d2, num(0)), facts) if not facts.foralls else None
    if pt is not None:
        LAST.update(facts=facts, goal=eq(d2, num(0)), point=pt)
        return "refuted"
    d3 = trig_linear(d2)
    if d3 is not None and not d3.m:
        STATS["ring"] += 1
        return "proved"
    r = check(eq(d2, num(0)), facts)
    if r[0] == "proved":
        return "proved"
    if r[0] == "refuted" and decisive(d2):
        LAST.update(facts=facts, goal=eq(d2, num(0)), point=None)
        return "refuted"
    # a case that cannot occur
    if check(T.F, unit_facts(facts))[0] == "proved":
        return "proved"
    LAST["facts"] = facts
    LAST["stuck"] = d2
    return "unknown"


def decisive(d):
    """A counterexample is only believed when nothing in the goal is opaque to the solver."""
    for a in deep_atoms(d):
        A = ATOMS[a]
        if A.kind in ("op", "sum"):
            return False
        if A.kind == "app" and A.name in OPAQUE:
            return False
    return True


# functions of which the solver knows only some axioms: a countermodel of a goal with one of these may be
# no more than a value the function does not take, so it settles nothing by itself
OPAQUE = {"atan2", "cos", "sin", "exp", "arcsin"}


def args_equal(A, Bt, facts, depth, fuel):
    if len(A.args) != len(Bt.args) or A.params != Bt.params:
        return False
    for x, y in zip(A.args, Bt.args):
        if x is y:
            continue
        if isinstance(x, Lam):
            if not isinstance(y, Lam) or not lam_equal(x, y, facts, depth + 1, fuel):
                return False
        elif isinstance(x, B):
            if not isinstance(y, B) or check(T.iff(x, y), facts)[0] != "proved":
                return False
        else:
            if not isinstance(y, Poly) or prove_zero(x - y, facts, depth + 1, fuel) != "proved":
                return False
    return True


BASE = []        # the preconditions of the obligation at hand, when they are among the facts
_lamcache = {}


def lam_equal(x, y, facts, depth, fuel):
    """Elementwise equality, first from the preconditions alone (remembered: it then holds in every case split), then from all facts."""
    if x.key() == y.key():
        return True
    if len(x.sizes) != len(y.sizes) or len(x.bodies) != len(y.bodies):
        return False
    base = BASE[-1] if BASE else None
    if base is None or len(base.bs) >= len(facts.bs):
        return _lam_equal(x, y, facts, depth, fuel)
    base = settle_facts(base)
    have = {b.id for b in facts.bs}
    if not all(b.id in have for b in base.bs) or len(base.foralls) > len(facts.foralls):
        return _lam_equal(x, y, facts, depth, fuel)
    k = (x.key(), y.key(), tuple(b.id for b in base.bs), len(base.foralls))
    r = _lamcache.get(k)
    if r is None:
        f2 = [min(fuel[0], 2000)]
        r = _lamcache[k] = _lam_equal(x, y, base, depth, f2)
        _keep.append((x, y))
    return r or _lam_equal(x, y, facts, depth, fuel)


_keep = []


def _lam_equal(x, y, facts, depth, fuel):
    for a, b in zip(x.sizes, y.sizes):
        if a is not b and prove_zero(a - b, facts, depth, fuel) != "proved":
            return False
    idx = [T.mono1(T.fresh("e", "I")) for _ in x.sizes]
    f2 = Facts(facts.bs + [le(num(0), i) for i in idx] + [lt(i, s) for i, s in zip(idx, x.sizes)], facts.foralls)
    for p, q in zip(x.open(idx), y.open(idx)):
        if p is q:
            continue
        if isinstance(p, B):
            if check(T.iff(p, q), f2)[0] != "proved":
                return False
        elif prove_zero(p - q, f2, depth, fuel) != "proved":
            return False
    return True


def congruence(d, facts, depth, fuel):
    """Replace atoms by provably equal representatives."""
    if depth > 6:
        return d
    atoms = [ATOMS[a] for a in sorted(d.atoms())]
    groups = {}
    for A in atoms:
        if A.kind in ("app", "op", "sum", "inv"):
            groups.setdefault((A.kind, A.name, len(A.args), A.params), []).append(A)
    for k, g in groups.items():
        if len(g) < 2:
            continue
        for i in range(len(g)):
            for j in range(i):
                if args_equal(g[i], g[j], facts, depth, fuel):
                    return T.subst_atoms(d, {g[i].id: T.mono1(g[j])})
                h = EQ_HOOKS.get(k[:2])
                if h is not None:
                    r = h(g[i], g[j], facts, depth, fuel)
                    if r is not None:
                        return T.subst_atoms(d, {g[i].id: r})
    # sums: linear combination of sums over the same box is the sum of the combination
    sums = [A for A in atoms if A.kind == "sum"]
    if len(sums) >= 2:
        r = merge_sums(d, facts, depth, fuel)
        if r is not None:
            return r
    # look inside arguments of single applications (their arguments may simplify)
    for A in atoms:
        h = SIMP_HOOKS.get((A.kind, A.name))
        if h is not None:
            r = h(A, facts, depth, fuel)
            if r is not None:
                return T.subst_atoms(d, {A.id: r})
    return d


EQ_HOOKS, SIMP_HOOKS = {}, {}


def merge_sums(d, facts, depth, fuel):
    """d = sum_i f_i * SUM_i + rest, where all f_i are equal up to constants: try to prove the sums cancel."""
    by = {}
    rest = {}
    for mono, c in d.m:
        s = [(a, e) for a, e in mono if ATOMS[a].kind == "sum"]
        if len(s) == 1 and s[0][1] == 1:
            cof = tuple((a, e) for a, e in mono if a != s[0][0])
            L = ATOMS[s[0][0]].args[0]
            by.setdefault((cof, tuple(x.id for x in L.sizes)), []).append((c, L))
        else:
            rest[mono] = c
    for k, items in by.items():
        if len(items) < 2:
            continue
        sizes = items[0][1].sizes
        idx = [T.mono1(T.fresh("e", "I")) for _ in sizes]
        f2 = Facts(facts.bs + [le(num(0), i) for i in idx] + [lt(i, s) for i, s in zip(idx, sizes)], facts.foralls)
        for perm in _perms(len(items)):
            sub = [items[i] for i in perm]
            body = T.psum([T.scale(L.open(idx)[0], c) for c, L in sub])
            if prove_zero(body, f2, depth + 1, fuel) == "proved":
                out = dict(d.m)
                for c, L in sub:
                    a = T._mk_atom("sum", None, (L,), L.bodies[0].sort)
                    mono = tuple(sorted(k[0] + ((a.id, 1),)))
                    out.pop(mono, None)
                return T._mk_poly(out)
    return None


def _perms(n):
    import itertools
    yield tuple(range(n))
    if n <= 6:
        for r in range(2, n):
            for c in itertools.combinations(range(n), r):
                yield c


def trig_reduce(d):
    """sin^2 -> 1 - cos^2."""
    for _ in range(6):
        hit = None
        for mono, c in d.m:
            for a, e in mono:
                A = ATOMS[a]
                if e >= 2 and A.kind == "app" and A.name == "sin":
                    hit = A
                    break
            if hit:
                break
        if hit is None:
            return d
        co = T.cos(hit.args[0])
        out = []
        for mono, c in d.m:
            dm = dict(mono)
            e = dm.get(hit.id, 0)
            k = e // 2
            dm[hit.id] = e - 2 * k
            p = T._mk_poly({tuple(sorted((a, x) for a, x in dm.items() if x)): c})
            out.append(T.mul(p, T.power(num(1) - T.power(co, 2), k)) if k else p)
        d = T.psum(out)
    return d


def trig_linear(d, deg=6):
    """Products of sines and cosines as sums of single ones (their product formulas), where that is small:
    a canonical form for equalities between trigonometric polynomials."""
    out, any_ = [], False
    for mono, c in d.m:
        tr = [(A, e) for A, e in ((ATOMS[a], e) for a, e in mono)
              if A.kind == "app" and A.name in ("cos", "sin") and e > 0]
        n = sum(e for _, e in tr)
        if n > deg:
            return None
        if n < 2:
            out.append(T._mk_poly({mono: c}))
            continue
        any_ = True
        ids = {A.id for A, _ in tr}
        rest = T._mk_poly({tuple((a, e) for a, e in mono if a not in ids): c})
        fs = [A for A, e in tr for _ in range(e)]
        acc = [(Fraction(1), fs[0].name, fs[0].args[0])]
        for A in fs[1:]:
            b, new = A.args[0], []
            for k, f, a in acc:
                if f == "cos" and A.name == "cos":
                    new += [(k / 2, "cos", a - b), (k / 2, "cos", a + b)]
                elif f == "sin" and A.name == "sin":
                    new += [(k / 2, "cos", a - b), (-k / 2, "cos", a + b)]
                elif f == "sin":
                    new += [(k / 2, "sin", a - b), (k / 2, "sin", a + b)]
                else:
                    new += [(-k / 2, "sin", a - b), (k / 2, "sin", a + b)]
            acc = new
        if len(d.m) * len(acc) > 20000:
            return None
        out.append(T.mul(rest, T.psum([T.scale(T.cos(a) if f == "cos" else T.sin(a), k) for k, f, a in acc])))
    return T.psum(out) if any_ else None


def polar_reduce(d):
    """hypot(x, y) cos(atan2(y, x)) = x and hypot(x, y) sin(atan2(y, x)) = y."""
    for _ in range(8):
        hit = None
        for mono, c in d.m:
            rs = [a for a, e in mono if ATOMS[a].kind == "app" and ATOMS[a].name == "sqrt"]
            for a, e in mono:
                A = ATOMS[a]
                if not (A.kind == "app" and A.name in ("cos", "sin")):
                    continue
                t = A.args[0].atom()
                if t is None or t.kind != "app" or t.name != "atan2":
                    continue
                y, x = t.args
                s = x * x + y * y
                for r in rs:
                    if ATOMS[r].args[0] is s:
                        hit = (mono, c, a, r, x if A.name == "cos" else y)
            if hit:
                break
        if hit is None:
            return d
        mono, c, a, r, v = hit
        dm = dict(mono)
        dm[a] -= 1
        dm[r] -= 1
        new = T.mul(T._mk_poly({tuple(sorted((k, e) for k, e in dm.items() if e)): c}), v)
        d = T.psum([d, T._mk_poly({mono: -c}), new])
    return d


def clear_inv(d, facts):
    """Multiply by denominators that are provably not zero."""
    for _ in range(12):
        invs = {}
        for mono, c in d.m:
            for a, e in mono:
                if ATOMS[a].kind == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        done = True
        for a, e in sorted(invs.items(), reverse=True):
            A = ATOMS[a]
            q = A.args[0]
            if check(bnot(eq(q, num(0))), facts)[0] != "proved":
                continue
            out = []
            for mono, c in d.m:
                dm = dict(mono)
                k = dm.pop(a, 0)
                p = T._mk_poly({tuple(sorted(dm.items())): c})
                out.append(T.mul(p, T.power(q, e - k)))
            d = T.psum(out)
            done = False
            break
        if done:
            return d
    return d


_solved = {}


def unit_value(p):
    """(variable, 0 or 1) if p = 0 says that an integer variable has that value."""
    m = [(k, c) for k, c in p.m if k]
    if len(m) != 1 or len(m[0][0]) != 1 or m[0][0][0][1] != 1:
        return None, None
    x = ATOMS[m[0][0][0][0]]
    c = -sum(c for k, c in p.m if not k) / m[0][1]
    return (x, c) if x.kind == "var" and x.sort == "I" and c in (0, 1) else (None, None)


def use_equalities(facts, ts):
    """Variables that the facts equate with another variable (or with 0 or 1) are replaced by it."""
    key = tuple(b.id for b in facts.bs)
    sol = _solved.get(key)
    if sol is None:
        sol = []
        bs = facts.bs
        units = []
        for _ in range(12):
            hit = None
            for b in bs:
                if b.kind == "eq" and len(b.args) == 1 and not b.args[0].hasite:
                    x, c = unit_value(b.args[0])
                    if x is not None:
                        hit = b, {x.id: num(c)}
                        units.append(b)
                        break
                if b.kind == "eq" and len(b.args) == 1 and len(b.args[0].m) == 2 and not b.args[0].hasite:
                    (m1, c1), (m2, c2) = b.args[0].m
                    if c1 == -c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
                        x, y = ATOMS[m1[0][0]], ATOMS[m2[0][0]]
                        if x.kind == y.kind == "var" and x.sort == y.sort:
                            x, y = (x, y) if x.id > y.id else (y, x)
                            hit = b, {x.id: T.mono1(y)}
                            break
            if hit is None:
                break
            sol.append(hit[1])
            bs = [T.subst(b, hit[1]) for b in bs if b is not hit[0]]
        _solved[key] = sol = (sol, bs + units)
    sol, bs = sol
    if not sol:
        return facts, ts
    foralls = facts.foralls
    for h in sol:
        ts = tuple(tuple(T.subst(y, h) for y in x) if isinstance(x, tuple) else T.subst(x, h) for x in ts)
        foralls = [T.subst(L, h) for L in foralls]
    return Facts([b for b in bs if b is not T.T], foralls), ts


def prove_eq(a, b, facts):
    """Equality of two element values (Poly, complex pair or Bool)."""
    if a is b:
        return "proved"
    LAST.clear()
    facts = settle_facts(facts)
    facts, (a, b) = use_equalities(facts, (a, b))
    if a is b:
        return "proved"
    if isinstance(a, tuple) or isinstance(b, tuple):
        a = a if isinstance(a, tuple) else (a, num(0))
        b = b if isinstance(b, tuple) else (b, num(0))
        r = [prove_zero(_tidy(x - y, facts), facts) for x, y in zip(a, b)]
        return "unknown" if "unknown" in r and "refuted" not in r else ("refuted" if "refuted" in r else "proved")
    if isinstance(a, B) or isinstance(b, B):
        a = a if isinstance(a, B) else bnot(eq(a, num(0)))
        b = b if isinstance(b, B) else bnot(eq(b, num(0)))
        r = check(T.iff(a, b), facts, want_model=True)
        if r[0] == "refuted":
            LAST.update(facts=facts, goal=T.iff(a, b), point=None)
        return r[0]
    return prove_zero(_tidy(a - b, facts), facts)


def _tidy(d, facts):
    return tidy(settle(d, facts), facts) if d.m else d
