"""Loads the real pyotf modules from the current source, with the library replaced by its contracts.

The source is parsed on every run and executed as it is, except for three mechanical rewrites that let ordinary Python
control flow meet symbolic lengths:
  * a list comprehension or generator expression becomes a call that maps the element expression over the iterable,
  * a for loop gets a header that can cut it with an invariant when its length is symbolic,
  * `x in y` and `x not in y` become a call (so that a symbolic x is compared element by element).
What is dropped: docstrings' effect, type annotations and `if __name__ == "__main__"` blocks.
"""
import ast
import builtins
import copy
import operator
import os
import sys
import types

import numpy as np

from . import term as T
from .term import num, eq, le, lt, band
from .ctx import Unsupported, Infeasible, cur
from . import sym, symnp, mpl
from .sym import S, SArr, SymList, lift, unpoly, intpoly, to_num, DT

REPO = os.environ.get("PYOTF_REPO", "/repo")


# -------------------------------------------------------------------------------------------- builtins

class SymRange:
    """range with symbolic bounds (step 1)."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.n = sym.resolve(T.maxv(b - a, num(0)))

    def aslist(self):
        return SymList(self.n, lambda i: S(self.a + i, DT["i"], True))


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, int)


class b_int(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SArr):
            if not all(s.const() == 1 for s in x._shape):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = S(x.get([num(0)] * x.ndim), x.dtype, False)
        if isinstance(x, S):
            if x.dtype.kind == "c":
                raise TypeError("int() argument must be a real number")
            return simp(S(T.trunc(to_num(x.v)), DT["i"], True))
        return int(x, *a)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, float)


class b_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SArr):
            if not all(s.const() == 1 for s in x._shape):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = S(x.get([num(0)] * x.ndim), x.dtype, False)
        if isinstance(x, S):
            if x.dtype.kind == "c":
                raise TypeError("float() argument must be a real number")
            return S(to_num(x.v), DT["f"], True)
        return float(x)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, bool)


class b_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        return bool(x)


class _CMeta(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, complex)


class b_complex(metaclass=_CMeta):
    def __new__(cls, *a):
        if any(isinstance(x, (S, SArr)) for x in a):
            if len(a) == 2:
                return lift(a[0]) + lift(a[1]) * 1j
            return S(sym.to_cx(lift(a[0]).v), DT["c"], True)
        return complex(*a)


_MAP = {b_int: int, b_float: float, b_bool: bool, b_complex: complex}
sym.PYT.update({b_int: np.dtype(np.int64), b_float: np.dtype(float), b_bool: np.dtype(bool), b_complex: np.dtype(complex)})

for _c, _t in _MAP.items():
    _c.__name__ = _c.__qualname__ = _t.__name__
    _c.dtype = sym.PYT[_c]          # numpy reads it: `a.dtype == float` compares with float64
for _c, _t in list(_MAP.items()):
    type(_c).__eq__ = lambda cls, o, t=_t: o is cls or o is t
    type(_c).__hash__ = lambda cls, t=_t: hash(t)
_MAP = dict(list(_MAP.items()))     # hashed anew
sym.PYT.update({c: sym.PYT[t] for c, t in _MAP.items()})
del _c, _t


def simp(s):
    """Concrete when constant."""
    c = s.const()
    if c is not None and s.py and s.dtype.kind == "i":
        return int(c)
    return s


def b_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(b_isinstance(x, c) for c in cls)
    cls = _MAP.get(cls, cls)
    if isinstance(cls, types.UnionType):
        return any(b_isinstance(x, c) for c in cls.__args__)
    if isinstance(x, S):
        k = x.dtype.kind
        if x.py:
            t = {"b": bool, "i": int, "u": int, "f": float, "c": complex}[k]
        else:
            t = x.dtype.type
        if cls in (S, object):
            return True
        import numbers
        return isinstance(cls, type) and issubclass(t, cls)
    return isinstance(x, cls)


def b_len(x):
    if isinstance(x, SArr):
        if not x._shape:
            raise TypeError("len() of unsized object")
        return unpoly(x._shape[0])
    if isinstance(x, SymList):
        return unpoly(x.n)
    if isinstance(x, SymRange):
        return unpoly(x.n)
    return len(x)


def b_range(*a):
    if all(isinstance(x, (int, np.integer)) for x in a):
        return range(*a)
    ps = [intpoly(x, "range argument") for x in a]
    for x in a:
        s = lift(x)
        if s is not None and s.dtype.kind == "f":
            raise TypeError("'float' object cannot be interpreted as an integer")
    cs = [p.const() for p in ps]
    if all(c is not None for c in cs):
        return range(*[int(c) for c in cs])
    if len(ps) == 3 and ps[2].const() != 1:
        raise Unsupported("range with a symbolic bound and a step")
    return SymRange(num(0), ps[0]) if len(ps) == 1 else SymRange(ps[0], ps[1])


def _fold(name, args, key):
    if key is not None:
        raise Unsupported(f"{name} with a key")
    if len(args) == 1:
        it = args[0]
        if isinstance(it, SArr) and it.ndim == 1 and it._shape[0].const() is None:
            return it.max() if name == "max" else it.min()
        args = list(iterate(it))
    if not any(isinstance(a, (S, SArr)) for a in args):
        return getattr(builtins, name)(*args)
    r = args[0]
    for x in args[1:]:
        if isinstance(r, SArr) and r.ndim or isinstance(x, SArr) and x.ndim:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        a, b = lift(r), lift(x)
        va, vb = to_num(a.v), to_num(b.v)
        v = T.maxv(va, vb) if name == "max" else T.minv(va, vb)
        v = sym.resolve(v)
        if v is va:
            r = r
        elif v is vb:
            r = x
        else:
            py = a.py and b.py
            d = a.dtype if a.dtype == b.dtype else sym.result_dtype("max", [a, b])
            r = simp(S(v, d, py))
    return r


def b_max(*a, key=None, **k):
    return _fold("max", a, key)


def b_min(*a, key=None, **k):
    return _fold("min", a, key)


def b_sum(it, start=0):
    if isinstance(it, (SymList, SymRange)) or isinstance(it, SArr) and it._shape and it._shape[0].const() is None:
        a = sym.asarr(it.aslist() if isinstance(it, SymRange) else it)
        return start + a.sum(axis=0)
    r = start
    for x in iterate(it):
        r = r + x
    return r


def b_abs(x):
    return abs(x)


def b_round(x, n=None):
    if isinstance(x, SArr):
        return symnp.round_(x, n or 0)
    return round(x, n) if n is not None else round(x)


def is_symbolic(x):
    return isinstance(x, (SymList, SymRange)) or (isinstance(x, SArr) and x.ndim > 0 and x._shape[0].const() is None)


def to_symlist(x):
    if isinstance(x, SymList):
        return x
    if isinstance(x, SymRange):
        return x.aslist()
    if isinstance(x, SArr):
        return SymList(x._shape[0], lambda i: x[S(i, DT["i"], True)] if True else None)
    raise Unsupported("iteration")


def iterate(x):
    if is_symbolic(x):
        raise Unsupported("iteration over a symbolic length")
    return iter(x)


def b_iter(x):
    return iterate(x)


def b_zip(*its, strict=False):
    if any(is_symbolic(i) for i in its):
        if not all(is_symbolic(i) for i in its):
            # shortest decides
            raise Unsupported("zip of a symbolic and a concrete length")
        ls = [to_symlist(i) for i in its]
        n = ls[0].n
        for l in ls[1:]:
            if not sym.same_size(l.n, n):
                n = sym.resolve(T.minv(n, l.n))
        return SymList(n, lambda i: tuple(l.fn(i) for l in ls))
    return zip(*[iterate(i) for i in its])


def b_enumerate(it, start=0):
    if is_symbolic(it):
        l = to_symlist(it)
        s = lift(start).v
        return SymList(l.n, lambda i: (S(i + s, DT["i"], True), l.fn(i)))
    return enumerate(iterate(it), start)


def b_map(f, *its):
    if any(is_symbolic(i) for i in its):
        l = to_symlist(b_zip(*its)) if len(its) > 1 else None
        if l is not None:
            return comp(l, lambda t: [f(*t)])
        return comp(its[0], lambda t: [f(t)])
    return map(f, *[iterate(i) for i in its])


def b_reversed(x):
    if is_symbolic(x):
        l = to_symlist(x)
        return SymList(l.n, lambda i: l.fn(l.n - 1 - i))
    return reversed(x) if not isinstance(x, SArr) else iter(list(x)[::-1])


def b_list(x=()):
    return to_symlist(x) if is_symbolic(x) else list(iterate(x))


def b_tuple(x=()):
    if isinstance(x, SymList):
        return x
    return to_symlist(x) if is_symbolic(x) else tuple(iterate(x))


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (list, SymList))


def b_any(x):
    if is_symbolic(x):
        return bool(symnp.np_any(sym.asarr(to_symlist(x))))
    return any(iterate(x))


def b_all(x):
    if is_symbolic(x):
        return bool(symnp.np_all(sym.asarr(to_symlist(x))))
    return all(iterate(x))


def b_sorted(x, **k):
    xs = list(iterate(x))
    if any(isinstance(e, S) and e.const() is None for e in xs):
        raise Unsupported("sorting symbolic values")
    return sorted(xs, **k)


def b_divmod(a, b):
    return (a // b, a % b)


def b_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


def b_hasattr(o, n):
    return hasattr(o, n)


# ------------------------------------------------------------------------------------- rewrite helpers

def comp(it, fn):
    """[elt for target in it ...]: fn maps one item to the list of results it contributes."""
    if not is_symbolic(it):
        out = []
        for x in iterate(it):
            out += fn(x)
        return out
    l = to_symlist(it)
    # the element expression at an arbitrary index stands for all of them
    v = T.fresh("it", "I")
    p = T.mono1(v)
    c = cur()
    if not c.branch(lt(num(0), l.n)):
        return []
    from .ctx import explore
    base = c.facts
    f2 = type(base)(base.bs + [le(num(0), p), lt(p, l.n)], base.foralls)
    paths = explore(lambda: fn(l.fn(p)), f2)
    c.subfacts = getattr(c, "subfacts", [])
    outs = []
    for q in paths:
        if q.exc is not None:
            raise Unsupported(f"an element expression may raise {type(q.exc).__name__}: {q.exc}")
        if len(q.result) != 1:
            raise Unsupported("a comprehension with a condition over a symbolic length")
        outs.append(q)
    # facts that hold for the arbitrary index hold for all; merge the paths with if-then-else
    items = []
    for q in outs:
        cond = [b for b in q.facts.bs if b not in f2.bs]
        items.append((band(*cond), q.result[0]))
    merged = merge(items)
    if len(outs) == 1:
        pass
    arrs = sym.asarr(merged)
    dt, sh, f = arrs.dtype, arrs._shape, arrs.snap()
    if any(v.id in s.fv for s in sh):
        raise Unsupported("ragged comprehension")

    def item(i):
        if not sh:
            return S(sym.esubst(f(()), {v.id: i}), dt, False)
        return SArr(lambda idx: sym.esubst(f(tuple(idx)), {v.id: i}), sh, dt)
    return SymList(l.n, item)


def merge(items):
    """One value from (condition, value) pairs whose conditions are exhaustive."""
    if len(items) == 1:
        return items[0][1]
    vals = [sym.asarr(v) for _, v in items]
    sh = vals[0]._shape
    dt = np.result_type(*[v.dtype for v in vals])
    for v in vals[1:]:
        if len(v._shape) != len(sh) or any(a is not b for a, b in zip(v._shape, sh)):
            raise Unsupported("element shapes differ between paths")
    fs = [v.snap() for v in vals]

    def fn(idx):
        r = sym.cast(fs[-1](idx), dt)
        for (c, _), f in reversed(list(zip(items[:-1], fs[:-1]))):
            r = sym.eite(c, sym.cast(f(idx), dt), r)
        return r
    if not sh:
        return S(fn(()), dt, False)
    return SArr(fn, sh, dt)


def contains(x, y):
    if isinstance(x, S) and x.const() is None and isinstance(y, (list, tuple, set, frozenset, dict)):
        for e in y:
            if isinstance(e, (S, int, float, bool, np.generic)) and bool(x == e):
                return True
        return False
    if isinstance(y, range) or isinstance(y, SymRange):
        if isinstance(x, S) or isinstance(y, SymRange):
            if isinstance(y, range):
                if y.step != 1:
                    raise Unsupported("in range with a step")
                a, b = num(y.start), num(y.stop)
            else:
                a, b = y.a, y.b
            p = sym.poly(x)
            return cur().branch(band(le(a, p), lt(p, b)))
    if isinstance(y, SArr):
        return bool((y == x).any())
    if isinstance(y, (list, tuple)) and any(isinstance(e, S) for e in y):
        return any(bool(x == e) for e in y)
    return x in y


def not_contains(x, y):
    return not contains(x, y)


LOOPS = {}     # (module, function) or module -> invariant


class LoopCtl:
    """Iteration of a for loop; a loop of symbolic length is cut with its invariant.

    The invariant is an object with  begin(c, n, state): the loop is reached;  first(c, n): iteration 0 is run from the
    actual state;  havoc(c, n, k, state) -> values: the state at the start of iteration k >= 1 (k = n: after the last);
    kept(c, n, k, state): to be proved at the end of iteration k."""

    def __init__(self, it, key, names, getters):
        self.key, self.names, self.getters = key, names, getters
        self.inv = LOOPS.get(key[:2]) or LOOPS.get(key[0])
        if self.inv is not None and isinstance(it, range) and len(it) > 20:
            r = it
            it = SymList(num(len(r)), lambda i: S(r.start + r.step * T.coerce(i), DT["i"], True))
        self.sym = is_symbolic(it)
        self.it = it
        self.exit = self.new = None
        self.last = []
        if self.sym:
            self.l = to_symlist(it)
            if self.inv is None:
                raise Unsupported(f"loop without an invariant over a symbolic length in {key[1]}")

    def state(self):
        out = {}
        for n, g in zip(self.names, self.getters):
            try:
                out[n] = g()
            except NameError:
                pass
        return out

    def __iter__(self):
        if not self.sym:
            for x in iterate(self.it):
                yield x
            return
        c = cur()
        n = self.l.n
        if not c.branch(lt(num(0), n)):
            return
        self.inv.begin(c, n, self.state())
        pick = []
        c.decide(lambda: pick.append(1), lambda: None, f"loop {self.key[1]}: first iteration")
        if pick:
            self.inv.first(c, n)
            yield self.l.fn(num(0))
            # reached by falling off the body or by continue: the iteration ends here
            self.inv.kept(c, n, num(0), self.state())
            raise Infeasible()
        c.decide(lambda: pick.append(1), lambda: None, f"loop {self.key[1]}: later iteration")
        if pick:
            k = T.mono1(T.fresh("k", "I"))
            c.assume(le(num(1), k))
            c.assume(lt(k, n))
            self.new = self.inv.havoc(c, n, k, self.state())
            yield self.l.fn(k)
            self.inv.kept(c, n, k, self.state())
            raise Infeasible()
        self.exit = self.inv.havoc(c, n, n, self.state())
        self.last = [self.l.fn(n - 1)]


def loop(it, key, names, getters):
    return LoopCtl(it, key, names, getters)


class Rewrite(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.stack = []
        self.count = {}
        self.funcs = []
        self.scope = []

    # -- scopes
    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        self.funcs.append(".".join(self.stack))
        node.returns = None
        args = node.args.args + node.args.kwonlyargs + node.args.posonlyargs
        for a in args:
            a.annotation = None
        loops = any(isinstance(n, ast.For) for n in ast.walk(node))
        self.scope.append({a.arg for a in args} | own_names(node) if loops else set())
        self.generic_visit(node)
        self.scope.pop()
        self.stack.pop()
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        self.generic_visit(node)
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return ast.copy_location(ast.Assign([node.target], node.value), node)

    def visit_If(self, node):
        t = node.test
        if not self.stack and isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
            return ast.copy_location(ast.Pass(), node)
        self.generic_visit(node)
        return node

    # -- comprehensions
    def _comp(self, node):
        self.generic_visit(node)
        g = node.generators[0]
        if g.is_async:
            return node
        inner = ast.ListComp(node.elt, [ast.comprehension(
            target=g.target, iter=ast.Tuple([ast.Name("__item", ast.Load())], ast.Load()), ifs=g.ifs, is_async=0)]
            + node.generators[1:])
        fn = ast.Lambda(ast.arguments([], [ast.arg("__item")], None, [], [], None, []), inner)
        call = ast.Call(ast.Name("pv__comp", ast.Load()), [g.iter, fn], [])
        return ast.copy_location(call, node)

    visit_ListComp = _comp
    visit_GeneratorExp = _comp

    # -- membership
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = "pv__in" if isinstance(node.ops[0], ast.In) else "pv__notin"
            return ast.copy_location(
                ast.Call(ast.Name(f, ast.Load()), [node.left, node.comparators[0]], []), node)
        return node

    # -- loops
    def visit_For(self, node):
        key_fn = ".".join(self.stack)
        k = self.count.get(key_fn, 0)
        self.count[key_fn] = k + 1
        tn = targets(node.target)
        names = sorted(self.scope[-1] - {"self"}) if self.scope else []
        target = copy.deepcopy(node.target)
        self.generic_visit(node)
        lid = f"pv__loop{k}_{abs(hash(key_fn)) % 10000}"
        keyt = ast.Tuple([ast.Constant(self.module), ast.Constant(key_fn), ast.Constant(k)], ast.Load())
        getters = ast.Tuple([ast.Lambda(ast.arguments([], [], None, [], [], None, []), ast.Name(n, ast.Load()))
                             for n in names], ast.Load())
        make = ast.Assign([ast.Name(lid, ast.Store())], ast.Call(
            ast.Name("pv__loop", ast.Load()),
            [node.iter, keyt, ast.Tuple([ast.Constant(n) for n in names], ast.Load()), getters], []))

        def move(meth):
            # v = ctl.enter(v) for one variable at a time; unbound variables stay unbound unless given a value
            out = []
            for i, n in enumerate(names):
                val = ast.Call(ast.Attribute(ast.Name(lid, ast.Load()), meth + "1", ast.Load()),
                               [ast.Constant(n)], [])
                test = ast.Call(ast.Attribute(ast.Name(lid, ast.Load()), meth + "_has", ast.Load()),
                                [ast.Constant(n)], [])
                out.append(ast.If(test, [ast.Assign([ast.Name(n, ast.Store())], val)], []))
            return out
        body = [x for x in move("enter") if x.body[0].targets[0].id not in tn] + node.body
        lm = lambda meth: ast.Call(ast.Attribute(ast.Name(lid, ast.Load()), meth, ast.Load()), [], [])
        orelse = move("leave") + [ast.If(lm("has_last"), [ast.Assign([target], lm("last1"))], [])] + node.orelse
        new = ast.For(node.target, ast.Name(lid, ast.Load()), body, orelse)
        return [ast.copy_location(make, node), ast.copy_location(new, node)]


def _has(d, n):
    return d is not None and n in d


LoopCtl.enter_has = lambda s, n: _has(s.new, n)
LoopCtl.enter1 = lambda s, n: s.new[n]
LoopCtl.leave_has = lambda s, n: _has(s.exit, n)
LoopCtl.leave1 = lambda s, n: s.exit[n]
LoopCtl.has_last = lambda s: bool(s.last)
LoopCtl.last1 = lambda s: s.last[0]


def targets(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def own_names(fn):
    """Names that a function binds itself (not those of functions and comprehensions inside it)."""
    out, drop = set(), set()

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(c.name)
            elif isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                pass
            else:
                if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                    out.add(c.id)
                elif isinstance(c, (ast.Global, ast.Nonlocal)):
                    drop.update(c.names)
                walk(c)
    walk(fn)
    return out - drop


# --------------------------------------------------------------------------------------------- loading

class World:
    """A fresh instance of the pyotf modules running on the contracts."""

    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.functions = []
        self.rec = mpl.Recorder()
        self.overrides = overrides or {}
        self.lib = self.libs()
        self.builtins = self.make_builtins()

    def libs(self):
        M = symnp.Module
        ni = M("scipy.ndimage._ni_support", {"_normalize_sequence": symnp._normalize_sequence})
        ndimage = M("scipy.ndimage", {"_ni_support": ni})
        fftpack = M("scipy.fftpack", {"next_fast_len": symnp.next_fast_len})
        sfft = M("scipy.fft", {"next_fast_len": lambda n, real=False: symnp.next_fast_len(n), "fftn": symnp.fftn,
                               "ifftn": symnp.ifftn, "fftshift": symnp.fftshift, "ifftshift": symnp.ifftshift,
                               "fftfreq": symnp.fftfreq})
        signal = M("scipy.signal", {"fftconvolve": symnp.fftconvolve})
        special = M("scipy.special", {"eval_jacobi": symnp.eval_jacobi})
        scipy = M("scipy", {"fftpack": fftpack, "ndimage": ndimage, "signal": signal, "special": special, "fft": sfft})
        rest = M("skimage.restoration", {"unwrap_phase": symnp.unwrap_phase})
        sk = M("skimage", {"restoration": rest})
        lib = {"numpy": symnp.NP, "numpy.fft": symnp.fft_mod, "numpy.linalg": symnp.linalg_mod, "numpy.ma": symnp.NP.ma,
               "scipy": scipy, "scipy.fftpack": fftpack, "scipy.fft": sfft, "scipy.ndimage": ndimage,
               "scipy.ndimage._ni_support": ni, "scipy.signal": signal, "scipy.special": special, "skimage": sk,
               "skimage.restoration": rest, "math": math_mod()}
        lib.update(self.rec.modules())
        return lib

    REAL = {"copy", "logging", "functools", "typing", "warnings", "itertools", "collections", "operator", "os", "sys",
            "abc", "enum", "dataclasses", "contextlib", "re", "time", "pathlib", "types", "numbers", "string",
            "collections.abc", "__future__", "builtins"}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__", "pyotf")
            name = pkg + ("." + name if name else "")
        if name in self.lib:
            if fromlist:
                return self.lib[name]
            return self.lib[name.split(".")[0]]
        if name == "pyotf" or name.startswith("pyotf."):
            if name == "pyotf" and fromlist:
                ns = types.ModuleType("pyotf")
                for f in fromlist:
                    setattr(ns, f, self.module(f))
                return ns
            sub = name.split(".", 1)[1] if "." in name else "__init__"
            m = self.module(sub)
            if fromlist:
                return m
            ns = types.ModuleType("pyotf")
            setattr(ns, sub, m)
            return ns
        if name.split(".")[0] in self.REAL or name in self.REAL:
            return builtins.__import__(name, None, None, fromlist, 0)
        raise Unsupported(f"import of {name}")

    def make_builtins(self):
        d = dict(vars(builtins))
        d.update(__import__=self.imp, int=b_int, float=b_float, bool=b_bool, complex=b_complex, isinstance=b_isinstance,
                 len=b_len, range=b_range, max=b_max, min=b_min, sum=b_sum, round=b_round, zip=b_zip, enumerate=b_enumerate,
                 map=b_map, reversed=b_reversed, any=b_any, all=b_all, sorted=b_sorted, divmod=b_divmod,
                 pv__comp=comp, pv__in=contains, pv__notin=not_contains, pv__loop=loop, iter=b_iter)
        d["list"] = ListShim
        d["tuple"] = TupleShim
        d["print"] = lambda *a, **k: None
        d["open"] = _forbidden("open")
        d["exec"] = _forbidden("exec")
        d["eval"] = _forbidden("eval")
        return d

    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = os.path.join(self.repo, "pyotf", name + ".py")
        if not os.path.exists(path):
            raise Unsupported(f"module pyotf.{name}")
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        rw = Rewrite(name)
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType("pyotf." + name)
        m.__dict__.update({"__builtins__": self.builtins, "__file__": path, "__package__": "pyotf",
                           "__name__": "pyotf." + name})
        self.mods[name] = m
        exec(compile(tree, path, "exec"), m.__dict__)
        self.functions += [f"{name}.{q}" for q in rw.funcs]
        for k, v in self.overrides.get(name, {}).items():
            m.__dict__[k] = v
        return m


def _forbidden(n):
    def f(*a, **k):
        raise Unsupported(n)
    return f


class _LM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, list)


class ListShim(metaclass=_LM):
    def __new__(cls, x=()):
        return b_list(x)


class _TM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, tuple)


class TupleShim(metaclass=_TM):
    def __new__(cls, x=()):
        return b_tuple(x)


_MAP.update({ListShim: list, TupleShim: tuple})


def math_mod():
    sc = lambda f: (lambda *a: _py(f(*a)))

    def _py(r):
        return S(r.v, r.dtype if r.dtype.kind != "i" else DT["i"], True)
    ifl = lambda f: (lambda x: simp(S(to_num(f(x).v), DT["i"], True)))
    return symnp.Module("math", dict(
        sqrt=sc(symnp.sqrt), cos=sc(symnp.cos), sin=sc(symnp.sin), exp=sc(symnp.exp), asin=sc(symnp.arcsin),
        acos=sc(symnp.arccos), atan2=sc(symnp.arctan2), hypot=sc(symnp.hypot), floor=ifl(symnp.floor),
        ceil=ifl(symnp.ceil), trunc=ifl(symnp.trunc), pi=S(T.PI, DT["f"], True), fabs=sc(symnp.absolute)))
