"""The trusted library contracts compared with the real libraries.

Each case is one expression, evaluated twice: symbolically, over the contracts in symnp (shapes and elements unknown), and by the real
library on the numbers those unknowns have at a concrete point.  Every element of the first result, evaluated at the point, must
equal the second.  This tests the contracts; it proves nothing."""
import random
import re

import numpy as np

from . import ctx, load, numev, prove as P, sym, symnp, term as T
from .contract import inarr, ivar, rvar, pyint, pyfloat, le, lt, num
from .sym import S, SArr

CASES = []      # (names, fn)


def case(names, fn):
    CASES.append((names.split(), fn))


class Point(numev.Point):
    """A point at which the library functions of the terms have their real values."""

    def value(self, p):
        self.left = 400000
        try:
            return self.p(p, {})
        except (numev.NoValue, OverflowError, ZeroDivisionError, RecursionError, ValueError):
            return None

    def app(self, A, n, env):
        if n == "jacobi":
            from scipy.special import eval_jacobi
            return float(eval_jacobi(*[float(self.p(x, env)) for x in A.args]))
        return super().app(A, n, env)

    def holds(self, b):
        self.left = 400000
        try:
            return self.b(b, {})
        except (numev.NoValue, OverflowError, ZeroDivisionError, RecursionError, ValueError):
            return None

    def b(self, b, env):
        if b.kind == "bapp" and b.name in ("all", "any"):
            L = b.args[0]
            r = [self.b(L.bodies[0], e) for _, e in self.box(L, env)]
            return all(r) if b.name == "all" else any(r)
        return super().b(b, env)

    def op(self, A, n, env):
        if n == "min":
            L = A.args[0]
            return min(self.p(L.bodies[0], e) for _, e in self.box(L, env))
        return super().op(A, n, env)


class Sym:
    """Arguments as unknowns."""

    def arr(self, name, dims, kind="f", dtype=None):
        return inarr(name, [ivar(d) if d.isidentifier() else num(int(d)) for d in dims.split()], kind, dtype)

    def int(self, name):
        return pyint(ivar(name))

    def real(self, name):
        return pyfloat(rvar(name))


class Real:
    """The same arguments at a point."""

    def __init__(self, pt):
        self.pt = pt

    def v(self, p):
        x = self.pt.value(p)
        assert x is not None
        return x

    def arr(self, name, dims, kind="f", dtype=None):
        sh = [int(self.v(ivar(d))) if d.isidentifier() else int(d) for d in dims.split()]
        if dtype is not None:
            name, kind = f"{name}:{np.dtype(dtype)}", np.dtype(dtype).kind
        out = np.empty(sh, dtype or dict(f=float, i=int, c=complex, b=bool)[kind])
        for i in np.ndindex(*sh):
            idx = tuple(num(k) for k in i)
            if kind == "c":
                out[i] = complex(*[float(self.v(T.app(name + x, idx, "R"))) for x in (".re", ".im")])
            elif kind == "b":
                out[i] = self.pt.holds(T.bapp(name, idx))
            else:
                out[i] = self.v(T.app(name, idx, "I" if kind in "iu" else "R"))
        return out

    def int(self, name):
        return int(self.v(ivar(name)))

    def real(self, name):
        return float(self.v(rvar(name)))


def flat(x):
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += flat(y)
        return r
    if isinstance(x, slice):
        return flat((x.start, x.stop, x.step))
    return [x]


def value(pt, e):
    """A number, or None where the point gives none."""
    if isinstance(e, T.B):
        return pt.holds(e)
    if isinstance(e, tuple):
        v = [pt.value(x) for x in e]
        return None if None in v else complex(*map(float, v))
    v = pt.value(T.coerce(e))
    return None if v is None else float(v)


def same(a, b):
    if isinstance(b, (bool, np.bool_)):
        return a is bool(b) if isinstance(a, bool) else a == bool(b)
    if not np.isfinite(b):
        return True     # not a real number: outside what the contracts speak about
    return abs(complex(a) - complex(b)) <= 1e-7 * max(1.0, abs(complex(b)))


def compare(pt, got, want, where):
    """Returns (elements compared, elements without a value); raises on a difference."""
    n = skipped = 0
    a, b = flat(got), flat(want)
    if len(a) != len(b):
        raise AssertionError(f"{where}: {len(a)} results instead of {len(b)}")
    for x, y in zip(a, b):
        if y is None or isinstance(y, (str, np.dtype, type)):
            if x is not y and x != y:
                raise AssertionError(f"{where}: {x} for {y}")
            continue
        if not isinstance(x, SArr):
            l = sym.lift(x)
            if l is None:
                raise AssertionError(f"{where}: {x!r} for {y!r}")
            y = np.asarray(y)
            if y.ndim:
                raise AssertionError(f"{where}: a scalar for an array")
            v = value(pt, l.v)
            if v is None:
                skipped += 1
            elif not same(v, y[()]):
                raise AssertionError(f"{where}: {v} for {y}")
            else:
                n += 1
            continue
        y = np.asarray(y)
        if x.ndim != y.ndim:
            raise AssertionError(f"{where}: {x.ndim} axes instead of {y.ndim}")
        sh = [pt.value(s) for s in x._shape]
        if None in sh:
            skipped += 1
            continue
        if tuple(int(s) for s in sh) != y.shape:
            raise AssertionError(f"{where}: shape {sh} instead of {y.shape}")
        if x.dtype.kind.replace("u", "i") != y.dtype.kind.replace("u", "i"):
            raise AssertionError(f"{where}: type {x.dtype} instead of {y.dtype}")
        for i in np.ndindex(*y.shape):
            v = value(pt, x.get(tuple(num(k) for k in i)))
            if v is None:
                skipped += 1
            elif not same(v, y[i]):
                raise AssertionError(f"{where}: element {i} is {v} instead of {y[i]}")
            else:
                n += 1
    return n, skipped


def variables(facts):
    vs = set()
    for b in facts:
        vs |= {T.ATOMS[a] for a in P.deep_atoms(b) if T.ATOMS[a].kind == "var"}
    return vs


def run_case(fn, symlib, reallib, pre=(), seeds=(1, 2, 3), name="", sizes=None):
    n = skipped = hit = 0
    paths = ctx.explore(lambda: fn(symlib, Sym()), P.Facts(list(pre), []))
    for seed in seeds:
        rnd = random.Random(f"{name}{seed}")
        pt = Point({}, seed)
        for k in "abcdefghklmnpq":
            pt.values[k] = T.Fraction(rnd.randint(2, 4) if k != "k" else rnd.randint(-3, 5)) if hasattr(T, "Fraction") else rnd.randint(2, 4)
        pt.values.update(sizes(rnd) if sizes else {})
        for b in pre:
            if pt.holds(b) is False:
                raise AssertionError(f"{name}: the point does not meet the precondition {b}")
        want = exc = None
        try:
            with np.errstate(all="ignore"):
                want = fn(reallib, Real(pt))
        except (ValueError, TypeError, IndexError, AssertionError) as e:
            exc = e
        mine = [q for q in paths if all(pt.holds(b) is not False for b in q.facts.bs)]
        sure = [q for q in mine if all(pt.holds(b) is True for b in q.facts.bs)]
        if not mine:
            raise AssertionError(f"{name}: no path for the point {pt.values}")
        if len(sure) > 1 or not sure:
            if len(mine) > 1:
                skipped += 1
                continue
            sure = mine
        q = sure[0]
        hit += 1
        if (q.exc is None) != (exc is None) or exc is not None and not isinstance(q.exc, type(exc)):
            raise AssertionError(f"{name}: {q.exc!r} instead of {exc!r} at {pt.values}")
        if exc is not None:
            n += 1
            continue
        with ctx.at(q.facts):
            a, b = compare(pt, q.result, want, name)
        n, skipped = n + a, skipped + b
    return n, skipped


class Libs:
    def __init__(self, get):
        self.get = get

    def __getattr__(self, name):
        r = self.get(name)
        setattr(self, name, r)
        return r


FULL = dict(np="numpy", fft="numpy.fft", la="numpy.linalg", ni="scipy.ndimage._ni_support", fftpack="scipy.fftpack", signal="scipy.signal",
            special="scipy.special")


def libs():
    import importlib
    w = load.World()
    import builtins
    import types
    return (Libs(lambda n: types.SimpleNamespace(**w.builtins) if n == "py" else w.lib[FULL[n]]),
            Libs(lambda n: builtins if n == "py" else importlib.import_module(FULL[n])))


def check(used=None):
    """Compare the contracts named in used (all by default): (functions, elements, without a value, differences, not compared)."""
    a, b = libs()
    n = skipped = 0
    bad, done = [], set()
    for i, (names, fn) in enumerate(CASES):
        if used is not None and not set(names) & set(used):
            continue
        name = f"{'/'.join(names)} (case {i})"
        pre = []
        try:
            x, y = run_case(fn, a, b, [le(1, ivar(k)) for k in "abcdmnpq"] + [lt(0, rvar("t")), lt(0, rvar("s"))], name=name)
            n, skipped = n + x, skipped + y
            if x:
                done |= set(names)
        except ctx.Unsupported as e:
            skipped += 1
        except AssertionError as e:
            bad.append(str(e)[:300])
    rest = sorted(set(used or ()) - done)
    return sorted(done), n, skipped, bad, rest


# ---------------------------------------------------------------------------------------------------- the cases
A1, A2, A3 = "n", "n m", "a n m"
for f in ("sqrt", "exp", "cos", "sin", "absolute", "floor", "ceil", "trunc", "rint", "sign", "square", "negative", "isnan", "isfinite",
          "rad2deg", "deg2rad", "round"):
    case(f"numpy.{f}", lambda l, a, f=f: getattr(l.np, f)(abs(a.arr("x", A2)) if f == "sqrt" else a.arr("x", A2)))
for f in ("absolute", "angle", "conjugate", "real", "imag", "exp", "square", "iscomplexobj", "isrealobj"):
    case(f"numpy.{f}", lambda l, a, f=f: getattr(l.np, f)(a.arr("x", A2, "c")))
for f in ("arctan2", "hypot", "maximum", "minimum", "fmax", "fmin", "add", "subtract", "multiply", "divide", "less", "less_equal",
          "greater", "greater_equal", "equal", "not_equal", "floor_divide", "remainder"):
    case(f"numpy.{f}", lambda l, a, f=f: getattr(l.np, f)(a.arr("x", A2), a.arr("y", "m")))
    case(f"numpy.{f}", lambda l, a, f=f: getattr(l.np, f)(a.arr("x", "n 1", "i"), a.arr("y", "m", "i") ** 2 + 1))
case("numpy.arcsin", lambda l, a: l.np.arcsin(a.arr("x", A1) / (1 + abs(a.arr("x", A1)))))
case("numpy.power", lambda l, a: [a.arr("x", A1) ** 3, a.arr("x", A1, "c") ** 2, (1 + abs(a.arr("x", A1))) ** 0.5])
case("numpy.logical_and numpy.logical_or numpy.logical_not", lambda l, a: [
    l.np.logical_and(a.arr("x", A2) > 0, a.arr("y", "m") > 0), l.np.logical_or(a.arr("x", A2) > 0, a.arr("y", "m") > 0), l.np.logical_not(a.arr("x", A1) > 0)])
case("numpy.add numpy.multiply numpy.divide", lambda l, a: [a.arr("x", A2, "c") * a.arr("y", "n m", "c"), a.arr("x", A2, "c") / (3j + a.arr("z", "m") ** 2),
                                                           a.arr("x", A2, "c") - 1j, 2 / (1 + a.arr("z", "m") ** 2)])
for axis in (None, 0, 1, -1, (0, 2), (1, 2)):
    for f in ("sum", "mean", "max", "min"):
        case(f"numpy.{f}", lambda l, a, f=f, axis=axis: getattr(l.np, f)(a.arr("x", A3), axis))
    case("numpy.sum numpy.mean", lambda l, a, axis=axis: [a.arr("x", A3, "c").sum(axis), a.arr("x", A3, "i").mean(axis), (a.arr("x", A3) > 0).sum(axis)])
case("numpy.sum", lambda l, a: a.arr("x", A3).sum(axis=1, keepdims=True))
case("numpy.all numpy.any", lambda l, a: [(a.arr("x", A2) > 0).all(), (a.arr("x", A2) > 0).any(), (a.arr("x", A2) > -99).all(), (a.arr("x", A2) > 99).any()])
case("numpy.allclose", lambda l, a: [l.np.allclose(a.arr("x", A1), a.arr("x", A1)), l.np.allclose(a.arr("x", A1), a.arr("x", A1) + 1)])
case("numpy.arange", lambda l, a: [l.np.arange(a.int("n")), l.np.arange(1, a.int("n")), l.np.arange(a.int("n")) - a.int("n") // 2, l.np.arange(5, 0, -2)])
case("numpy.linspace", lambda l, a: [l.np.linspace(a.real("t"), 9.0, a.int("n") + 1), l.np.linspace(0, 1, 5)])
case("numpy.zeros numpy.ones numpy.full numpy.empty", lambda l, a: [l.np.zeros((a.int("n"), 2)), l.np.ones(a.int("n"), dtype=complex), l.np.full((2, a.int("m")), a.real("t")),
                                                                  l.np.zeros_like(a.arr("x", A2, "c")), l.np.empty((a.int("n"), 3)).shape])
case("numpy.array numpy.asarray", lambda l, a: [l.np.array([1, 2.5, a.real("t")]), l.np.array([a.arr("x", A1), a.arr("y", A1)]), l.np.asarray(a.real("t")),
                                                l.np.array((a.int("n"), a.int("m"))), l.np.array(a.arr("x", A2), dtype=complex)])
case("numpy.indices", lambda l, a: [l.np.indices((a.int("n"), a.int("m"))), l.np.indices((a.int("n"),))])
case("numpy.meshgrid", lambda l, a: [list(l.np.meshgrid(a.arr("x", "n"), a.arr("y", "m"))), list(l.np.meshgrid(a.arr("z", "a"), a.arr("x", "n"), a.arr("y", "m"), indexing="ij"))])
case("numpy.mgrid", lambda l, a: l.np.mgrid[0:3, -1:4])
case("numpy.broadcast_to", lambda l, a: l.np.broadcast_to(a.arr("x", "n 1"), (a.int("a"), a.int("n"), a.int("m"))))
case("numpy.roll", lambda l, a: [l.np.roll(a.arr("x", A2), a.int("k"), 0), l.np.roll(a.arr("x", A2), (1, -2), (0, 1)), l.np.roll(a.arr("x", A2), 1, axis=-1),
                                 l.np.roll(a.arr("x", A3), (2, 2), axis=(1, 2))])
case("numpy.pad", lambda l, a: [l.np.pad(a.arr("x", A2), ((1, 2), (0, 3)), mode="constant"), l.np.pad(a.arr("x", A2), ((a.int("p"), 2), (0, 3)), "constant", constant_values=7),
                                l.np.pad(a.arr("x", A1), 2, "edge")])
case("numpy.concatenate numpy.stack", lambda l, a: [l.np.concatenate([a.arr("x", "n m"), a.arr("y", "p m")]), l.np.stack([a.arr("x", "n m"), a.arr("z", "n m")], axis=1),
                                                    l.np.concatenate([a.arr("x", "n m"), a.arr("w", "n p")], axis=1)])
case("numpy.flip", lambda l, a: [l.np.flip(a.arr("x", A2), 0), a.arr("x", A2)[::-1, ::-1]])
case("numpy.where", lambda l, a: [l.np.where(a.arr("x", A2) > 0, a.arr("x", A2), a.arr("y", "m")), l.np.where(a.arr("x", A1) > 0, 1j, 2)])
case("numpy.diff", lambda l, a: [l.np.diff(a.arr("x", A1)), l.np.diff(a.arr("x", A2), axis=0)])
case("numpy.dot numpy.matmul numpy.tensordot numpy.einsum", lambda l, a: [l.np.dot(a.arr("x", "n m"), a.arr("y", "m p")), a.arr("x", "n m") @ a.arr("z", "m"),
                                                                         l.np.tensordot(a.arr("z", "m"), a.arr("w", "m n p"), 1), l.np.einsum("ij,jk->ik", a.arr("x", "n m"), a.arr("y", "m p"))])
case("numpy.argmax numpy.unravel_index", lambda l, a: list(l.np.unravel_index(a.arr("x", A3).argmax(), a.arr("x", A3).shape)))
case("numpy.argmax", lambda l, a: l.np.argmax(a.arr("x", A1)))
case("numpy.unravel_index", lambda l, a: list(l.np.unravel_index(a.int("n"), (2, a.int("m") + 3))))
case("numpy.bincount", lambda l, a: l.np.bincount(a.arr("x", A2, dtype=np.dtype("uint8")).ravel()))
case("numpy.bincount", lambda l, a: l.np.bincount(a.arr("x", A2, dtype=np.dtype("uint8")).ravel(), a.arr("y", A2).ravel()))
case("numpy.argsort", lambda l, a: l.np.argsort([3, 1, 2]))
case("numpy.issubdtype", lambda l, a: [l.np.issubdtype(a.arr("x", A1, "i").dtype, l.np.integer), l.np.issubdtype(a.arr("x", A1).dtype, l.np.integer)])
for ax in (None, (0,), (1, 2), -1, (0, 1, 2), (-1, -2)):
    case("numpy.fft.fftshift numpy.fft.ifftshift", lambda l, a, ax=ax: [l.fft.fftshift(a.arr("x", A3), axes=ax), l.fft.ifftshift(a.arr("x", A3), axes=ax)])
    axes = (ax,) if isinstance(ax, int) else ax
    case("numpy.fft.fftn numpy.fft.ifftn", lambda l, a, ax=axes: [l.fft.fftn(a.arr("x", A3, "c"), axes=ax), l.fft.ifftn(a.arr("x", A3), axes=ax)])
case("numpy.fft.fftfreq", lambda l, a: [l.fft.fftfreq(a.int("n"), a.real("t")), l.fft.fftfreq(a.int("m"))])
case("numpy.linalg.norm", lambda l, a: [l.la.norm(a.arr("x", A3), axis=0), l.la.norm(a.arr("x", A1)), l.la.norm([a.arr("x", A1), a.arr("y", A1)], axis=0)])
case("scipy.ndimage._ni_support._normalize_sequence", lambda l, a: [l.ni._normalize_sequence(a.real("t"), 3), l.ni._normalize_sequence([1, 2], 2)])
case("scipy.signal.fftconvolve", lambda l, a: l.signal.fftconvolve(a.arr("x", A3), a.arr("y", "1 3 3"), "same", axes=(1, 2)))
case("scipy.signal.fftconvolve", lambda l, a: l.signal.fftconvolve(a.arr("x", A2), a.arr("y", "p q")))
case("scipy.special.eval_jacobi", lambda l, a: l.special.eval_jacobi(2, 1, 0, a.arr("x", A1)))
# indexing, views, assignment, reshaping
case("indexing", lambda l, a: [a.arr("x", A3)[0], a.arr("x", A3)[:, 1:, -1], a.arr("x", A3)[..., 0], a.arr("x", A2)[:, None], a.arr("x", A2).T, a.arr("x", A1)[::2],
                               a.arr("x", A1)[a.int("p") - 1:], a.arr("x", A2)[-2:, :1], a.arr("x", A2)[(Ellipsis, slice(0, 2))], a.arr("x", A3)[:, a.int("n") // 2, :]])
case("indexing", lambda l, a: [a.arr("x", A2).ravel(), a.arr("x", A2).reshape(-1), a.arr("x", A3).reshape(a.int("a"), -1), a.arr("x", A3).swapaxes(0, 2),
                               a.arr("x", "n 1 m").squeeze(1), a.arr("x", A2).astype(int), a.arr("x", A2).astype(complex)])


def _store(l, a):
    x = a.arr("x", A2).copy()
    x[0] = 5
    y = x[:, 0]
    y += 2
    x[x > 1] *= 3
    x[1:, 1] = a.arr("y", A2)[1:, 0]
    return [x, y]


def _mask(l, a):
    x = a.arr("x", A2)
    z = l.np.zeros_like(x)
    ok = x > 0
    z[ok] = x[ok] ** 2
    return z


def _small(l, a):
    u, i = a.arr("u", A1, dtype=np.dtype("uint8")), a.arr("v", A1, dtype=np.dtype("int16"))
    return [u - 3, u + i, u * 2.5, u.astype(float) ** 2, -u, u ** 2, i ** 2, u // 2, (u - i) % 5]


case("assignment", _store)
case("assignment", _mask)
case("machine_integers", _small)
case("python", lambda l, a: [l.py.round(a.real("t")), a.int("k") // 2, a.int("k") % 3, -a.int("k") // 4, abs(a.int("k")), l.py.max(a.int("n"), 3), l.py.min(a.real("t"), 1), l.py.int(a.real("t")), 7 / a.int("n"),
                             a.int("n") ** 2, l.py.divmod(a.int("k"), 3), l.py.bool(a.int("k") > 0), l.py.float(a.int("k"))])


def _flat(l, a):
    x = a.arr("x", A2, "i") ** 2
    r = x.ravel()
    w = r * 2.0 + 1
    v = (x.astype(float) ** 2).ravel()
    return [r, w, w.reshape(x.shape), v - w, l.np.bincount(r, v - w), l.np.bincount(r, w ** 2), r[1:] * 2]


case("assignment numpy.bincount", _flat)


def _flat_own(l, a):
    x = a.arr("x", A2, "i") ** 2
    y = x.flatten()
    y *= 2
    y[0] = 1
    x += 1
    z = a.arr("z", "n")
    r = z.ravel()
    r[0] = 3
    return [x, y, z, r, l.np.bincount(y), l.np.bincount(x.ravel())]


case("assignment", _flat_own)
