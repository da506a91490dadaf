"""Contracts of numpy, scipy, skimage and matplotlib as used by the code under proof.

Every function here states what the library routine returns, as terms.  These contracts are trusted; tools/conformance.py
compares each of them with the real library on concrete data.
"""
import operator
import types

import numpy as np

from . import term as T
from . import prove as P
from .term import num, eq, le, lt, band, bor, bnot, bnot_deep, ite
from .ctx import Unsupported, cur
from . import sym
from .sym import (S, SArr, SymList, Quant, FlatIndex, NestedList, Ravel, asarr, aslifted, lift, elementwise, to_num, to_cx,
                  to_bool, cast, DT, PYT, binop, unpoly, poly, intpoly, result_dtype, array_lam, norm_axes)

USED = set()      # library contracts the current run relied on


def used(name):
    USED.add(name)


def A(x):
    """SArr or S operand of a ufunc."""
    r = aslifted(x)
    if r is None:
        raise TypeError(f"ufunc input {x!r}")
    if isinstance(r, SArr) and r.ndim == 0:
        return S(r.get(()), r.dtype, False)
    return r


def arr(x):
    return asarr(x)


def fdtype(*xs):
    """Result dtype of a float ufunc."""
    d = result_dtype("f", list(xs))
    if d.kind in "b":
        return np.dtype(np.float16)
    if d.kind in "ui":
        return np.dtype(np.float16) if d.itemsize == 1 else (np.dtype(np.float32) if d.itemsize == 2 else DT["f"])
    return d


def ufunc1(name, fn, kind="f"):
    def f(x, out=None, dtype=None, where=True, **k):
        if out is not None or where is not True:
            raise Unsupported(f"np.{name}(out=/where=)")
        used(f"numpy.{name}")
        a = A(x)
        if kind == "f":
            d = fdtype(a)
        elif kind == "same":
            d = a.dtype
        elif kind == "abs":
            d = a.dtype if a.dtype.kind != "c" else np.dtype(np.float32 if a.dtype.itemsize == 8 else float)
        elif kind == "b":
            d = DT["b"]
        r = elementwise(fn, [a], d)
        return r
    f.__name__ = name
    return f


def _csqrt(e):
    e = to_num(e)
    if isinstance(e, tuple):
        raise Unsupported("sqrt of complex values")
    return T.sqrt(e)


def _real_only(fn, name):
    def f(e):
        e = to_num(e)
        if isinstance(e, tuple):
            raise Unsupported(f"{name} of complex values")
        return fn(e)
    return f


def _sign(e):
    e = to_num(e)
    if isinstance(e, tuple):
        raise Unsupported("sign of complex values")
    return ite(lt(num(0), e), num(1), ite(lt(e, num(0)), num(-1), num(0)))


def _arccos(e):
    return T.PI * num(T.Fraction(1, 2)) - T.arcsin(e)


def _angle(e):
    e = to_num(e)
    if isinstance(e, tuple):
        return T.atan2(e[1], e[0])
    return ite(lt(e, num(0)), T.PI, num(0))


sqrt = ufunc1("sqrt", _csqrt)
exp = ufunc1("exp", sym.eexp)
cos = ufunc1("cos", _real_only(T.cos, "cos"))
sin = ufunc1("sin", _real_only(T.sin, "sin"))
tan = ufunc1("tan", _real_only(lambda e: T.sin(e) * T.inv(T.cos(e)), "tan"))
arcsin = ufunc1("arcsin", _real_only(T.arcsin, "arcsin"))
arccos = ufunc1("arccos", _real_only(_arccos, "arccos"))
floor = ufunc1("floor", _real_only(T.floor, "floor"))
ceil = ufunc1("ceil", _real_only(T.ceil, "ceil"))
trunc = ufunc1("trunc", _real_only(T.trunc, "trunc"))
rint = ufunc1("rint", _real_only(T.rint, "rint"))
log = ufunc1("log", _real_only(lambda e: T.app("log", (e,)), "log"))
log10 = ufunc1("log10", _real_only(lambda e: T.app("log10", (e,)), "log10"))
absolute = ufunc1("absolute", sym.eabs, "abs")
negative = ufunc1("negative", sym.eneg, "same")
positive = ufunc1("positive", to_num, "same")
sign = ufunc1("sign", _sign, "same")
square = ufunc1("square", lambda e: sym.emul(e, e), "same")
reciprocal = ufunc1("reciprocal", lambda e: sym.ediv(num(1), e), "same")
conjugate = ufunc1("conjugate", lambda e: (e[0], -e[1]) if isinstance(e, tuple) else e, "same")
logical_not = ufunc1("logical_not", lambda e: bnot_deep(to_bool(e)), "b")
isnan = ufunc1("isnan", lambda e: T.F if not sym.has_nan(e) else sym.nan_cond(e), "b")
isfinite = ufunc1("isfinite", lambda e: T.T if not sym.has_nan(e) else bnot_deep(sym.nan_cond(e)), "b")
isinf = ufunc1("isinf", lambda e: T.F, "b")
rad2deg = ufunc1("rad2deg", _real_only(lambda e: e * 180 * T.inv(T.PI), "rad2deg"))
deg2rad = ufunc1("deg2rad", _real_only(lambda e: e * T.PI * num(T.Fraction(1, 180)), "deg2rad"))


def angle(z, deg=False):
    used("numpy.angle")
    a = A(z)
    r = elementwise(_angle, [a], fdtype(a) if a.dtype.kind != "c" else DT["f"])
    return rad2deg(r) if deg else r


def _atan2(y, x):
    return T.atan2(to_num(y), to_num(x))


def _hypot(a, b):
    a, b = to_num(a), to_num(b)
    return T.sqrt(T.sum_squares(a, b))


def ufunc2(name, fn, kind="same"):
    def f(x, y, out=None, where=True, **k):
        if out is not None or where is not True:
            raise Unsupported(f"np.{name}(out=/where=)")
        used(f"numpy.{name}")
        a, b = A(x), A(y)
        if kind == "f":
            d = fdtype(a, b)
        elif kind == "b":
            d = DT["b"]
        else:
            d = result_dtype(name, [a, b])
        return elementwise(fn, [a, b], d)
    f.__name__ = name
    return f


def _mx(a, b):
    a, b = to_num(a), to_num(b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        raise Unsupported("maximum of complex values")
    return T.maxv(a, b)


def _mn(a, b):
    a, b = to_num(a), to_num(b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        raise Unsupported("minimum of complex values")
    return T.minv(a, b)


arctan2 = ufunc2("arctan2", _atan2, "f")
hypot = ufunc2("hypot", _hypot, "f")
maximum = ufunc2("maximum", _mx)
fmax = ufunc2("fmax", _mx)
minimum = ufunc2("minimum", _mn)
fmin = ufunc2("fmin", _mn)
logical_and = ufunc2("logical_and", lambda a, b: band(to_bool(a), to_bool(b)), "b")
logical_or = ufunc2("logical_or", lambda a, b: bor(to_bool(a), to_bool(b)), "b")
logical_xor = ufunc2("logical_xor", lambda a, b: bnot_deep(T.iff(to_bool(a), to_bool(b))), "b")


def opfunc(name):
    def f(x, y, out=None, where=True, **k):
        if out is not None or where is not True:
            raise Unsupported(f"np.{name}(out=/where=)")
        used(f"numpy.{name}")
        a, b = A(x), A(y)
        r = sym.scalar_op(name, a, b) if not isinstance(a, SArr) and not isinstance(b, SArr) else sym.array_op(name, a, b)
        return S(r.v, r.dtype, False) if isinstance(r, S) else r
    return f


add, subtract, multiply, divide = opfunc("add"), opfunc("sub"), opfunc("mul"), opfunc("truediv")
true_divide, floor_divide, power, remainder = divide, opfunc("floordiv"), opfunc("pow"), opfunc("mod")
mod = remainder
less, less_equal, greater, greater_equal = opfunc("lt"), opfunc("le"), opfunc("gt"), opfunc("ge")
equal, not_equal = opfunc("eq"), opfunc("ne")
bitwise_and, bitwise_or = opfunc("and"), opfunc("or")


def round_(x, decimals=0):
    used("numpy.round")
    if decimals != 0:
        raise Unsupported("round to digits")
    a = A(x)
    return elementwise(_real_only(T.rint, "round"), [a], a.dtype)


def real(x):
    a = arr(x) if not isinstance(x, (S, SArr)) else x
    return a.real


def imag(x):
    a = arr(x) if not isinstance(x, (S, SArr)) else x
    return a.imag


def clip(x, lo, hi):
    r = x
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def where(c, x=None, y=None):
    used("numpy.where")
    if x is None:
        raise Unsupported("np.where with one argument")
    c, x, y = A(c), A(x), A(y)
    d = result_dtype("where", [x, y])
    return elementwise(lambda a, b, e: cast(sym.eite(to_bool(a), b, e), d), [c, x, y], d)


# ------------------------------------------------------------------------------------------- creation

def dt_of(dtype, default=None):
    if dtype is None:
        return np.dtype(default or float)
    return np.dtype(PYT.get(dtype, dtype))


def array(x, dtype=None, copy=True, ndmin=0, **k):
    used("numpy.array")
    if ndmin:
        raise Unsupported("ndmin")
    r = asarr(x, dtype)
    return r.copy() if r is x and copy is not False else r


def asarray(x, dtype=None, **k):
    used("numpy.asarray")
    return asarr(x, dtype)


def shape_of(shape):
    if isinstance(shape, (S, int, np.integer)):
        shape = (shape,)
    if isinstance(shape, SArr):
        shape = list(shape)
    out = []
    for s in shape:
        p = intpoly(s, "size")
        if cur().branch(lt(p, num(0))):
            raise ValueError("negative dimensions are not allowed")
        out.append(p)
    return tuple(out)


def full(shape, value, dtype=None, **k):
    used("numpy.full")
    v = A(value)
    if isinstance(v, SArr):
        raise Unsupported("np.full with an array")
    d = dt_of(dtype, v.dtype)
    e = cast(v.v, d)
    return SArr(lambda idx: e, shape_of(shape), d)


def zeros(shape, dtype=None, order="C"):
    used("numpy.zeros")
    return full(shape, 0, dt_of(dtype))


def ones(shape, dtype=None, order="C"):
    used("numpy.ones")
    return full(shape, 1, dt_of(dtype))


def empty(shape, dtype=None, order="C"):
    used("numpy.empty")
    d = dt_of(dtype)
    n = T.fresh("empty", "I")
    sh = shape_of(shape)

    def fn(idx):
        e = T.app(f"uninit{n.id}", tuple(idx), "R")
        if d.kind == "c":
            return (e, T.app(f"uninit{n.id}i", tuple(idx), "R"))
        if d.kind == "b":
            return T.bapp(f"uninit{n.id}", tuple(idx))
        if d.kind in "iu":
            return T.app(f"uninit{n.id}", tuple(idx), "I")
        return e
    return SArr(fn, sh, d)


def _like(f):
    def g(x, *a, dtype=None, shape=None, **k):
        x = x if isinstance(x, SArr) else arr(x)
        return f(shape if shape is not None else x.shape, *a, dtype=dtype if dtype is not None else x.dtype)
    return g


zeros_like, ones_like, empty_like, full_like = _like(zeros), _like(ones), _like(empty), _like(full)


def arange(*a, dtype=None):
    used("numpy.arange")
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop, step = a[0], a[1], a[2] if len(a) > 2 else 1
    s0, s1, st = (lift(x) for x in (start, stop, step))
    for x in (s0, s1, st):
        if x is None:
            raise TypeError("arange arguments")
    d = result_dtype("arange", [s0, s1, st])
    if dtype is not None:
        d = dt_of(dtype)
    p0, p1, ps = to_num(s0.v), to_num(s1.v), to_num(st.v)
    if ps.const() == 1 and p0.sort == "I" and p1.sort == "I":
        n = sym.resolve(T.maxv(p1 - p0, num(0)))
    elif ps.const() == -1 and p0.sort == "I" and p1.sort == "I":
        n = sym.resolve(T.maxv(p0 - p1, num(0)))
    else:
        n = sym.resolve(T.maxv(T.ceil((p1 - p0) * T.inv(ps)), num(0)))
    return SArr(lambda idx: p0 + ps * idx[0], (n,), d)


def linspace(start, stop, n=50, endpoint=True, **k):
    used("numpy.linspace")
    a, b = to_num(lift(start).v), to_num(lift(stop).v)
    m = intpoly(n)
    den = m - 1 if endpoint else m
    return SArr(lambda idx: a + (b - a) * idx[0] * T.inv(den), (m,), float)


def indices(dimensions, dtype=int, sparse=False):
    used("numpy.indices")
    sh = shape_of(dimensions)
    if sparse:
        raise Unsupported("sparse indices")
    n = len(sh)
    return SArr(lambda idx: sym.lookup(lambda k: idx[1 + k[0]], (n,), (idx[0],)), (num(n),) + sh, dt_of(dtype))


class _Grid:
    def __init__(self, sparse):
        self.sparse = sparse

    def __getitem__(self, key):
        used("numpy.mgrid")
        single = not isinstance(key, tuple)
        key = (key,) if single else key
        axes = []
        for s in key:
            a, st = s.start, s.step
            if isinstance(st, complex):
                raise Unsupported("complex grid step")
            axes.append(arange(0 if a is None else a, s.stop, 1 if st is None else st))
        if single:
            return axes[0]
        if self.sparse:
            return tuple(x[tuple(slice(None) if j == i else None for j in range(len(axes)))] for i, x in enumerate(axes))
        sh = tuple(x._shape[0] for x in axes)
        fs = [x.snap() for x in axes]
        d = np.result_type(*[x.dtype for x in axes])
        return SArr(lambda idx: sym.lookup(lambda k: fs[k[0]]((idx[1 + k[0]],)), (len(fs),), (idx[0],)), (num(len(fs)),) + sh, d)


mgrid, ogrid = _Grid(False), _Grid(True)


def meshgrid(*xs, indexing="xy", sparse=False, copy=True):
    used("numpy.meshgrid")
    xs = [ravel(arr(x)) if arr(x).ndim != 1 else arr(x) for x in xs]
    n = len(xs)
    sh = [x._shape[0] for x in xs]
    pos = list(range(n))
    if indexing == "xy" and n >= 2:
        sh[0], sh[1] = sh[1], sh[0]
        pos[0], pos[1] = 1, 0
    elif indexing not in ("xy", "ij"):
        raise ValueError("Valid values for `indexing` are 'xy' and 'ij'.")
    out = []
    for i, x in enumerate(xs):
        f = x.snap()
        p = pos[i]
        s2 = [s if (not sparse or d == p) else num(1) for d, s in enumerate(sh)]
        out.append(SArr(lambda idx, f=f, p=p: f((idx[p],)), s2, x.dtype))
    return out


def ix_(*xs):
    n = len(xs)
    return tuple(arr(x)[tuple(slice(None) if j == i else None for j in range(n))] for i, x in enumerate(xs))


def broadcast_to(x, shape):
    used("numpy.broadcast_to")
    z = zeros(shape, bool)
    a = arr(x)
    r = elementwise(lambda e, _: e, [a, z], a.dtype)
    sym.check_same_shape(z, r)
    r.writable = False
    return r


def broadcast_arrays(*xs):
    xs = [arr(x) for x in xs]
    sh = sym.broadcast_shapes([x._shape for x in xs])
    return [broadcast_to(x, [unpoly(s) for s in sh]) for x in xs]


# ------------------------------------------------------------------------------------------ structure

def ravel(x):
    return sym.ravel(arr(x))


def reshape(x, shape, **k):
    return arr(x).reshape(shape)


def squeeze(x, axis=None):
    return sym.squeeze(arr(x), axis)


def transpose(x, axes=None):
    return arr(x).transpose(axes) if axes is not None else arr(x).T


def swapaxes(x, a, b):
    return arr(x).swapaxes(a, b)


def moveaxis(x, src, dst):
    x = arr(x)
    src, dst = norm_axes(src, x.ndim), norm_axes(dst, x.ndim)
    order = [d for d in range(x.ndim) if d not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return sym.transpose(x, order)


def expand_dims(x, axis):
    x = arr(x)
    axes = axis if isinstance(axis, (tuple, list)) else (axis,)
    nd = x.ndim + len(axes)
    axes = [a % nd for a in axes]
    return x[tuple(None if d in axes else slice(None) for d in range(nd))]


def flip(x, axis=None):
    used("numpy.flip")
    x = arr(x)
    axes = norm_axes(axis, x.ndim)
    return x[tuple(slice(None, None, -1) if d in axes else slice(None) for d in range(x.ndim))]


def concatenate(xs, axis=0, **k):
    used("numpy.concatenate")
    xs = [arr(x) for x in xs]
    nd = xs[0].ndim
    ax = axis % nd
    for x in xs[1:]:
        for d in range(nd):
            if d != ax and not sym.same_size(x._shape[d], xs[0]._shape[d]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs, tot = [], num(0)
    for x in xs:
        offs.append(tot)
        tot = tot + x._shape[ax]
    d = np.result_type(*[x.dtype for x in xs])
    fs = [x.snap() for x in xs]

    def fn(idx):
        r = None
        for f, o in reversed(list(zip(fs, offs))):
            e = cast(f(tuple(idx[:ax]) + (idx[ax] - o,) + tuple(idx[ax + 1:])), d)
            r = e if r is None else sym.eite(le(nxt, idx[ax]), r, e)
            nxt = o
        return r
    return SArr(fn, xs[0]._shape[:ax] + (tot,) + xs[0]._shape[ax + 1:], d)


def stack(xs, axis=0, **k):
    used("numpy.stack")
    if isinstance(xs, SymList):
        a = asarr(xs)
    else:
        a = sym.from_list(list(xs))
    return a if axis == 0 else moveaxis(a, 0, axis)


def append(a, b, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(b)])
    return concatenate([a, b], axis)


def atleast_1d(x):
    x = arr(x)
    return x if x.ndim else x.reshape(1)


def pad(array, pad_width, mode="constant", **kw):
    used("numpy.pad")
    a = arr(array)
    if isinstance(pad_width, (int, S)):
        pad_width = [(pad_width, pad_width)] * a.ndim
    pw = [tuple(p) if isinstance(p, (tuple, list, SArr)) else (p, p) for p in pad_width]
    if len(pw) == 1 and a.ndim > 1:
        pw = pw * a.ndim
    if len(pw) == 2 and a.ndim != 2 and not isinstance(pad_width[0], (tuple, list, SArr)):
        pw = [(pad_width[0], pad_width[1])] * a.ndim
    if len(pw) != a.ndim:
        raise ValueError("operands could not be broadcast together with remapped shapes")
    ps = [(intpoly(x), intpoly(y)) for x, y in pw]
    for x, y in ps:
        if cur().branch(bor(lt(x, num(0)), lt(y, num(0)))):
            raise ValueError("index can't contain negative values")
    known = {"constant", "edge", "linear_ramp", "maximum", "mean", "median", "minimum", "reflect", "symmetric", "wrap", "empty"}
    if callable(mode):
        raise Unsupported("np.pad with a function")
    if mode not in known:
        raise ValueError(f"mode '{mode}' is not supported")
    allowed = {"constant": {"constant_values"}, "linear_ramp": {"end_values"}, "maximum": {"stat_length"},
               "mean": {"stat_length"}, "median": {"stat_length"}, "minimum": {"stat_length"},
               "reflect": {"reflect_type"}, "symmetric": {"reflect_type"}}.get(mode, set())
    if set(kw) - allowed:
        raise ValueError(f"unsupported keyword arguments for mode '{mode}': {set(kw)}")
    f = a.snap()
    sh = a._shape
    out = [s + x + y for s, (x, y) in zip(sh, ps)]
    cv = kw.get("constant_values", 0)
    d = a.dtype
    if mode == "constant":
        c = lift(cv)
        if c is None:
            raise Unsupported("constant_values per axis")
        cval = cast(c.v, d)
        pv = lambda idx: cval
    elif mode == "edge":
        def pv(idx):
            return f(tuple(T.minv(T.maxv(i - x, num(0)), s - 1) for i, s, (x, y) in zip(idx, sh, ps)))
    else:
        L = array_lam(f, sh)
        tag = mode + repr(sorted((k, repr(v)) for k, v in kw.items()))

        def pv(idx):
            w = [x for p in ps for x in p]
            e = T.op("pad_" + tag, "", [L], list(idx) + w, 0, "I" if d.kind in "iu" else "R")
            if d.kind == "c":
                return (e, T.op("pad_" + tag, "", [L], list(idx) + w, 1, "R"))
            if d.kind == "b":
                return bnot(eq(e, num(0)))
            return e

    def fn(idx):
        src = tuple(i - x for i, (x, y) in zip(idx, ps))
        c = band(*[band(le(num(0), i), lt(i, s)) for i, s, (x, y) in zip(src, sh, ps)])
        if c is T.T:
            return f(src)
        return sym.eite(c, f(src), pv(idx))
    return SArr(fn, out, d)


def shift_index(i, k, n):
    """(i - k) mod n for 0 <= i < n."""
    c = cur()
    if k.const() == 0:
        return lambda i: i
    if c.proves(band(le(num(0), k), le(k, n))):
        return lambda i: ite(lt(i, k), i - k + n, i - k)
    if c.proves(band(le(-n, k), le(k, num(0)))):
        return lambda i: ite(lt(i - k, n), i - k, i - k - n)
    if c.proves(band(le(-n, k), le(k, n))):
        return lambda i: ite(lt(i - k, num(0)), i - k + n, ite(lt(i - k, n), i - k, i - k - n))
    return lambda i: T.mod(i - k, n)


def roll(a, shift, axis=None):
    used("numpy.roll")
    a = arr(a)
    if axis is None:
        if a.ndim != 1:
            f = roll(ravel(a), shift, 0)
            return f.reshape(a.shape)
        axis = 0
    axes = axis if isinstance(axis, (tuple, list)) else [axis]
    axes = norm_axes(list(axes), a.ndim)
    sh = list(shift) if isinstance(shift, (tuple, list)) or isinstance(shift, SArr) and shift.ndim else [shift]
    if len(sh) == 1:
        sh = sh * len(axes)
    if len(axes) == 1:
        axes = axes * len(sh)
    if len(sh) != len(axes):
        raise ValueError("shift and axis must be broadcastable")
    tot = {}
    for s, x in zip(sh, axes):
        tot[x] = tot.get(x, num(0)) + intpoly(s, "shift")
    fs = {x: shift_index(None, k, a._shape[x]) for x, k in tot.items()}
    f = a.snap()
    return SArr(lambda idx: f(tuple(fs[d](i) if d in fs else i for d, i in enumerate(idx))), a._shape, a.dtype)


def fftshift(x, axes=None):
    used("numpy.fft.fftshift")
    x = arr(x)
    ax = norm_axes(axes, x.ndim)
    return roll(x, [unpoly(T.fdiv(x._shape[d], num(2))) for d in ax], ax) if ax else x.copy()


def ifftshift(x, axes=None):
    used("numpy.fft.ifftshift")
    x = arr(x)
    ax = norm_axes(axes, x.ndim)
    return roll(x, [unpoly(-T.fdiv(x._shape[d], num(2))) for d in ax], ax) if ax else x.copy()


# ----------------------------------------------------------------------------------------- transforms

def _dft(name, inverse, a, s=None, axes=None, norm=None):
    a = arr(a)
    if s is not None or norm not in (None, "backward"):
        raise Unsupported("fft with s= or norm=")
    axes = norm_axes(axes, a.ndim)
    if len(set(axes)) != len(axes):
        raise Unsupported("repeated axes in a Fourier transform")
    axes = sorted(axes)
    f = a.snap()
    d = np.dtype(complex) if a.dtype != np.complex64 else np.dtype(complex)
    sh = a._shape
    if not axes:
        return a.astype(complex)
    for x in axes:
        if cur().branch(le(sh[x], num(0))):
            raise ValueError("Invalid number of FFT data points")
    return SArr(lambda idx: dft_elem(inverse, f, sh, axes, idx), sh, d)


def dft_elem(inverse, f, sh, axes, idx):
    """Element idx of the (inverse) DFT over the given axes of the array with element function f."""
    def body(u):
        full = list(idx)
        for x, i in zip(axes, u):
            full[x] = i
        return list(to_cx(f(tuple(full))))
    return dft_lam(inverse, T.lam([sh[x] for x in axes], body), [idx[x] for x in axes])


def dft_lam(inverse, L, idx):
    name, other = ("idft", "dft") if inverse else ("dft", "idft")
    if L.bodies[0].const() == 0 and L.bodies[1].const() == 0:
        return (num(0), num(0))
    one = [s.const() == 1 for s in L.sizes]
    if any(one):
        # nothing happens along an axis of length one
        keep = [k for k, o in enumerate(one) if not o]
        full = lambda u: [u[keep.index(k)] if k in keep else num(0) for k in range(len(one))]
        if not keep:
            return tuple(L.open(full([])))
        return dft_lam(inverse, T.lam([L.sizes[k] for k in keep], lambda u: L.open(full(u))), [idx[k] for k in keep])
    # the transforms invert each other
    a, b = L.bodies[0].atom(), L.bodies[1].atom()
    if a is not None and b is not None and a.kind == b.kind == "op" and a.name == b.name == other:
        n = a.params[2]
        if a.params[1] == 0 and b.params[1] == 1 and a.args[0].key() == b.args[0].key():
            want = [T.mono1(T.bv(L.lvl, i)) for i in range(len(L.sizes))]
            if list(a.args[n:]) == want and list(b.args[n:]) == want and list(a.args[0].sizes) == list(L.sizes):
                return tuple(a.args[0].open(idx))
    return (T.op(name, "", [L], list(idx), 0), T.op(name, "", [L], list(idx), 1))


def _rebuild_dft(Aatom, args):
    r = dft_lam(Aatom.name == "idft", args[0], list(args[1:]))
    return r[Aatom.params[1]]


def _simp_dft(A, facts, depth, fuel):
    """A transform of (something provably equal to) the inverse transform of an array is that array."""
    other = "idft" if A.name == "dft" else "dft"
    L = A.args[0]
    if depth > 4 or not any(T.ATOMS[a].kind == "op" and T.ATOMS[a].name == other for b in L.bodies for a in P._all_atoms(b)):
        return None
    u = [T.mono1(T.fresh("e", "I")) for _ in L.sizes]
    f2 = P.Facts(facts.bs + [le(num(0), i) for i in u] + [lt(i, s) for i, s in zip(u, L.sizes)], facts.foralls)
    bodies = L.open(u)
    for cand in _inner_lams(bodies, other):
        if cand is None or len(cand.sizes) != len(L.sizes):
            continue
        if any(a is not b and P.prove_zero(a - b, f2, depth + 1, fuel) != "proved" for a, b in zip(cand.sizes, L.sizes)):
            continue
        if any(x.id in cand.fv for x in [i.atom() for i in u]):
            continue
        if all(P.prove_zero(b - T.op(other, "", [cand], u, k), f2, depth + 1, fuel) == "proved" for k, b in enumerate(bodies)):
            r = cand.open(list(A.args[A.params[2]:]))
            return r[A.params[1]]
    return None


def _inner_lams(ts, name):
    """The arrays that operator `name` is applied to at the top level of the terms (also inside ites)."""
    out, seen = [], set()

    def walk(t):
        if isinstance(t, T.Lam) or t.id in seen:
            return
        seen.add(t.id)
        if isinstance(t, T.Poly):
            for a in t.atoms():
                X = T.ATOMS[a]
                if X.kind == "op" and X.name == name:
                    if all(X.args[0].key() != o.key() for o in out):
                        out.append(X.args[0])
                elif X.kind == "ite":
                    walk(X.args[1])
                    walk(X.args[2])
    for t in ts:
        walk(t)
    return out[:4]


P.SIMP_HOOKS[("op", "dft")] = _simp_dft
P.SIMP_HOOKS[("op", "idft")] = _simp_dft
T.REBUILD["dft"] = _rebuild_dft
T.REBUILD["idft"] = _rebuild_dft


def fftn(a, s=None, axes=None, norm=None):
    used("numpy.fft.fftn")
    return _dft("fftn", False, a, s, axes, norm)


def ifftn(a, s=None, axes=None, norm=None):
    used("numpy.fft.ifftn")
    return _dft("ifftn", True, a, s, axes, norm)


def fft2(a, s=None, axes=(-2, -1), norm=None):
    return _dft("fft2", False, a, s, axes, norm)


def ifft2(a, s=None, axes=(-2, -1), norm=None):
    return _dft("ifft2", True, a, s, axes, norm)


def fft(a, n=None, axis=-1, norm=None):
    return _dft("fft", False, a, n, [axis], norm)


def ifft(a, n=None, axis=-1, norm=None):
    return _dft("ifft", True, a, n, [axis], norm)


def fftfreq(n, d=1.0):
    used("numpy.fft.fftfreq")
    p = intpoly(n, "n")
    q = to_num(lift(d).v)
    if cur().branch(eq(p, num(0))):
        raise ZeroDivisionError("float division by zero")
    if cur().branch(lt(p, num(0))):
        raise ValueError("negative dimensions are not allowed")
    half = T.fdiv(p - 1, num(2))
    iv = T.inv(p * q)
    return SArr(lambda idx: ite(le(idx[0], half), idx[0], idx[0] - p) * iv, (p,), float)


# ----------------------------------------------------------------------------------------- reductions

def np_sum(x, axis=None, dtype=None, keepdims=False, **k):
    used("numpy.sum")
    if dtype is not None:
        x = arr(x).astype(dtype)
    if isinstance(x, (types.GeneratorType,)):
        raise Unsupported("np.sum of a generator")
    return to_arr_(arr(x)).sum(axis=axis, keepdims=keepdims)


def to_arr_(x):
    return SArr.const0(x) if isinstance(x, S) else x


def mean(x, axis=None, **k):
    used("numpy.mean")
    return arr(x).mean(axis=axis, **k)


def amax(x, axis=None, **k):
    used("numpy.max")
    return arr(x).max(axis=axis, **k)


def amin(x, axis=None, **k):
    used("numpy.min")
    return arr(x).min(axis=axis, **k)


def var(x, axis=None, ddof=0, keepdims=False, **k):
    x = arr(x)
    if x.dtype.kind == "c" or ddof:
        raise Unsupported("var")
    m = x.mean(axis=axis, keepdims=True)
    return ((x - m) ** 2).mean(axis=axis, keepdims=keepdims)


def std(x, *a, **k):
    return sqrt(var(x, *a, **k))


def prod(x, axis=None, **k):
    x = arr(x)
    if x.ndim != 1 or x._shape[0].const() is None:
        raise Unsupported("prod")
    r = lift(1)
    for e in x:
        r = r * e
    return r


def np_all(x, axis=None, **k):
    used("numpy.all")
    return to_arr_(arr(x)).all(axis=axis)


def np_any(x, axis=None, **k):
    used("numpy.any")
    return to_arr_(arr(x)).any(axis=axis)


def count_nonzero(x, axis=None, **k):
    a = arr(x)
    return elementwise(to_bool, [a], DT["b"]).sum(axis=axis)


def argmax(x, axis=None):
    used("numpy.argmax")
    return arr(x).argmax(axis)


def argmin(x, axis=None):
    if axis is not None:
        raise Unsupported("argmin along an axis")
    return FlatIndex(-arr(x))


def norm(x, ord=None, axis=None, keepdims=False):
    used("numpy.linalg.norm")
    if ord not in (None, 2):
        raise Unsupported("norm of another order")
    if ord == 2 and axis is None and arr(x).ndim != 1:
        raise Unsupported("matrix norm")
    a = arr(x)
    sq = elementwise(lambda e: e[0] * e[0] + e[1] * e[1] if isinstance(e, tuple) else to_num(e) * to_num(e), [a],
                     DT["f"])
    return sqrt(sq.sum(axis=axis, keepdims=keepdims))


def diff(x, n=1, axis=-1):
    used("numpy.diff")
    x = arr(x)
    if n != 1:
        raise Unsupported("diff of higher order")
    ax = axis % x.ndim
    a = x[tuple(slice(1, None) if d == ax else slice(None) for d in range(x.ndim))]
    b = x[tuple(slice(None, -1) if d == ax else slice(None) for d in range(x.ndim))]
    return a - b


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    used("numpy.allclose")
    return np_all(absolute(binop("sub", arr(a), b)) <= atol + rtol * absolute(b))


def array_equal(a, b):
    a, b = arr(a), arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not sym.same_size(x, y):
            return False
    return np_all(a == b)


def bincount(x, weights=None, minlength=0):
    used("numpy.bincount")
    a = arr(x)
    if a.ndim != 1:
        raise ValueError("object too deep for desired array")
    if a.dtype.kind not in "iub":
        raise TypeError("Cannot cast array data to int64 according to the rule 'safe'")
    if a.dtype == np.uint64:
        raise TypeError("Cannot cast array data from dtype('uint64') to dtype('int64') according to the rule 'safe'")
    box = a.box if isinstance(a, Ravel) else (a.snap(), a._shape)
    f, sh = box
    neg = SArr(lambda i: lt(to_num(f(i)), num(0)), sh, bool)
    if bool(sym.quant(neg, False)):
        raise ValueError("'list' argument must have no negative elements")
    w = None
    if weights is not None:
        w = arr(weights)
        if w.dtype.kind == "c":
            raise TypeError("Cannot cast array data from dtype('complex128') to dtype('float64')")
        wf, wsh = w.box if isinstance(w, Ravel) else (w.snap(), w._shape)
        if len(wsh) != len(sh):
            raise Unsupported("bincount weights with another layout")
        for p, q in zip(sh, wsh):
            if not sym.same_size(p, q):
                raise ValueError("The weights and list don't have the same length.")
    L = T.lam(list(sh), lambda idx: [to_num(f(tuple(idx)))])
    mx = T.op("max", "", [L], [], 0, "I")
    if isinstance(a, SArr):
        n = mx + 1
        cur().assume(le(num(0), mx))
    m = intpoly(minlength)
    n = sym.resolve(T.maxv(n, m)) if m.const() != 0 else n

    def fn(idx):
        def el(i):
            i = tuple(i)
            v = num(1) if w is None else to_num(wf(i))
            return ite(eq(to_num(f(i)), idx[0]), v, num(0))
        return T.ssum(list(sh), el)
    return SArr(fn, (n,), DT["i"] if w is None else DT["f"])


def unravel_index(k, shape):
    used("numpy.unravel_index")
    if isinstance(k, SArr) and k.ndim == 0:
        k = S(k.get(()), k.dtype, False)
    shape = tuple(intpoly(s) for s in shape)
    if isinstance(k, FlatIndex) and len(k.arr._shape) == len(shape) and all(x is y for x, y in zip(k.arr._shape, shape)):
        return tuple(S(p, DT["i"], False) for p in k.multi)
    p = intpoly(k)
    tot = num(1)
    for s in shape:
        tot = tot * s
    if not cur().branch(band(le(num(0), p), lt(p, tot))):
        raise ValueError("index is out of bounds for array")
    return tuple(S(q, DT["i"], False) for q in sym.unflatten(p, shape))


def argsort(x, *a, **k):
    used("numpy.argsort")
    x = arr(x)
    d = concrete(x)
    return sym.from_numpy(np.argsort(d, *a, **k))


def concrete(x):
    """The real ndarray of an array whose elements are all constant."""
    if any(s.const() is None for s in x._shape):
        raise Unsupported("a concrete array is needed")
    sh = tuple(int(s.const()) for s in x._shape)
    f = x.snap()
    out = np.empty(sh, x.dtype)
    for i in np.ndindex(*sh):
        e = f(tuple(num(k) for k in i))
        if isinstance(e, T.B):
            if e not in (T.T, T.F):
                raise Unsupported("a concrete array is needed")
            out[i] = e is T.T
            continue
        c = e.const() if not isinstance(e, tuple) else None
        if c is None:
            raise Unsupported("a concrete array is needed")
        out[i] = c
    return out


def dot(a, b):
    used("numpy.dot")
    a, b = arr(a), arr(b)
    if not a.ndim or not b.ndim:
        return a * b
    return matmul(a, b) if b.ndim <= 2 and a.ndim <= 2 else tensordot(a, b, ((a.ndim - 1,), (b.ndim - 2,)))


def matmul(a, b):
    used("numpy.matmul")
    a, b = arr(a), arr(b)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported("stacked matmul")
    return tensordot(a, b, ((a.ndim - 1,), (0,)))


def tensordot(a, b, axes=2):
    used("numpy.tensordot")
    a, b = arr(a), arr(b)
    if isinstance(axes, int):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    xa, xb = norm_axes(axes[0], a.ndim), norm_axes(axes[1], b.ndim)
    for p, q in zip(xa, xb):
        if not sym.same_size(a._shape[p], b._shape[q]):
            raise ValueError("shape-mismatch for sum")
    fa, fb = a.snap(), b.snap()
    ka = [d for d in range(a.ndim) if d not in xa]
    kb = [d for d in range(b.ndim) if d not in xb]
    sh = [a._shape[d] for d in ka] + [b._shape[d] for d in kb]

    def fn(idx):
        def el(r):
            ia, ib = [None] * a.ndim, [None] * b.ndim
            for d, i in zip(ka, idx):
                ia[d] = i
            for d, i in zip(kb, idx[len(ka):]):
                ib[d] = i
            for p, q, i in zip(xa, xb, r):
                ia[p] = ib[q] = i
            return sym.emul(fa(tuple(ia)), fb(tuple(ib)))
        return sym.sum_elem([a._shape[p] for p in xa], el)
    d = result_dtype("mul", [a, b])
    return SArr(fn, sh, d) if sh else S(fn(()), d, False)


def einsum(spec, *ops):
    used("numpy.einsum")
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    if not _:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    xs = [arr(x) for x in ops]
    size = {}
    for s, x in zip(ins, xs):
        for c, p in zip(s, x._shape):
            if c in size:
                if not sym.same_size(size[c], p):
                    raise ValueError("einsum sizes")
            else:
                size[c] = p
    red = [c for c in size if c not in out]
    fs = [x.snap() for x in xs]

    def fn(idx):
        env = dict(zip(out, idx))

        def el(r):
            e2 = dict(env)
            e2.update(zip(red, r))
            v = None
            for s, f in zip(ins, fs):
                e = f(tuple(e2[c] for c in s))
                v = e if v is None else sym.emul(v, e)
            return v
        return sym.sum_elem([size[c] for c in red], el) if red else el([])
    d = result_dtype("mul", xs)
    return SArr(fn, [size[c] for c in out], d) if out else S(fn(()), d, False)


def outer(a, b):
    return arr(a).reshape(-1)[:, None] * arr(b).reshape(-1)[None, :]


def lstsq(a, b, rcond=None, **k):
    used("numpy.linalg.lstsq")
    a, b = arr(a), arr(b)
    if a.ndim != 2 or b.ndim != 1:
        raise Unsupported("lstsq with several right hand sides")
    if not sym.same_size(a._shape[0], b._shape[0]):
        raise ValueError("Incompatible dimensions")
    fa, fb = a.snap(), b.snap()
    if a.dtype.kind == "c" or b.dtype.kind == "c":
        raise Unsupported("complex least squares")
    m, n = a._shape
    # the least squares solution of least norm is determined by the normal equations
    A_ = lambda k, i: to_num(fa((k, i)))
    G = T.lam([n, n], lambda i: [T.ssum([m], lambda k: A_(k[0], i[0]) * A_(k[0], i[1]))])
    h = T.lam([n], lambda i: [T.ssum([m], lambda k: A_(k[0], i[0]) * to_num(fb((k[0],))))])
    tag = "" if rcond is None else repr(rcond)
    coefs = SArr(lambda idx: T.op("lstsq", tag, [G, h], list(idx), 0), (n,), float)
    return coefs, Opaque("residuals"), Opaque("rank"), Opaque("singular values")


class Opaque:
    def __init__(self, what):
        self.what = what

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"use of {self.what}")


def unwrap_phase(image, wrap_around=False, seed=None, **k):
    used("skimage.restoration.unwrap_phase")
    a = arr(image)
    if wrap_around is not False:
        raise Unsupported("unwrap_phase with wrap_around")
    L = array_lam(a.snap(), a._shape)
    return SArr(lambda idx: T.op("unwrap", "", [L], list(idx), 0), a._shape, float)


def eval_jacobi(n, al, be, x, **k):
    used("scipy.special.eval_jacobi")
    xs = [A(v) for v in (n, al, be, x)]
    return elementwise(lambda *e: jacobi(*[to_num(v) for v in e]), xs, DT["f"])


JACOBI = {"expand": False}


def jacobi(n, a, b, x):
    cs = [p.const() for p in (n, a, b)]
    if JACOBI["expand"] and all(c is not None and c.denominator == 1 for c in cs) and cs[0] >= 0:
        return jacobi_poly(int(cs[0]), int(cs[1]), int(cs[2]), x)
    return T.app("jacobi", (n, a, b, x))


def jacobi_poly(n, a, b, x):
    """Jacobi polynomial, explicit sum with integer parameters."""
    from math import comb
    r = num(0)
    h = T.Fraction(1, 2)
    xm, xp = (x - 1) * num(h), (x + 1) * num(h)
    for s in range(n + 1):
        r = r + num(comb(n + a, n - s) * comb(n + b, s)) * T.power(xm, s) * T.power(xp, n - s)
    return r


T.REBUILD["jacobi"] = lambda At, args: jacobi(*args)


def fftconvolve(in1, in2, mode="full", axes=None):
    used("scipy.signal.fftconvolve")
    a, k = arr(in1), arr(in2)
    if a.ndim != k.ndim:
        raise ValueError("in1 and in2 should have the same dimensionality")
    axes = norm_axes(axes, a.ndim)
    if mode not in ("same", "full"):
        raise Unsupported(f"fftconvolve mode {mode}")
    fa, fk = a.snap(), k.snap()
    sh = []
    for d in range(a.ndim):
        if d in axes:
            sh.append(a._shape[d] if mode == "same" else a._shape[d] + k._shape[d] - 1)
        else:
            sh.append(sym.broadcast_shapes([(a._shape[d],), (k._shape[d],)])[0])
    dt = np.result_type(a.dtype, k.dtype)
    dt = DT["c"] if dt.kind == "c" else DT["f"]

    def fn(idx):
        def el(j):
            ia, ik = [], []
            c = []
            m = dict(zip(axes, j))
            for d in range(a.ndim):
                if d in axes:
                    off = T.fdiv(k._shape[d] - 1, num(2)) if mode == "same" else num(0)
                    p = idx[d] + off - m[d]
                    ia.append(p)
                    ik.append(m[d])
                    c += [le(num(0), p), lt(p, a._shape[d])]
                else:
                    ia.append(num(0) if a._shape[d].const() == 1 else idx[d])
                    ik.append(num(0) if k._shape[d].const() == 1 else idx[d])
            e = sym.emul(fa(tuple(ia)), fk(tuple(ik)))
            z = (num(0), num(0)) if isinstance(e, tuple) else num(0)
            return sym.eite(band(*c), e, z)
        return sym.sum_elem([k._shape[d] for d in axes], el)
    return SArr(fn, sh, dt)


def next_fast_len(n):
    used("scipy.fftpack.next_fast_len")
    p = intpoly(n)
    r = T.app("next_fast_len", (p,), "I")
    cur().assume(le(p, r))
    return unpoly(r)


def _normalize_sequence(x, rank):
    """scipy.ndimage._ni_support._normalize_sequence"""
    used("scipy.ndimage._ni_support._normalize_sequence")
    is_str = isinstance(x, str)
    if hasattr(x, "__iter__") and not is_str and not (isinstance(x, SArr) and x.ndim == 0):
        n = list(x)
        if len(n) != rank:
            raise RuntimeError("sequence argument must have length equal to input rank")
        return n
    return [x] * rank


# --------------------------------------------------------------------------------------- type queries

def issubdtype(a, b):
    used("numpy.issubdtype")
    conv = lambda t: PYT.get(t, t)
    if isinstance(a, SArr) or isinstance(a, S) and not a.py:
        a = a.dtype     # numpy takes an object's dtype attribute
    elif isinstance(a, S):
        raise TypeError(f"Cannot interpret '{a}' as a data type")
    a = conv(a)
    b = conv(b)
    if isinstance(b, np.dtype):
        b = b.type
    return bool(np.issubdtype(a, b))


def _is(x, k):
    if isinstance(x, (S, SArr)):
        return x.dtype.kind in k
    return asarr(x).dtype.kind in k


def iscomplexobj(x):
    used("numpy.iscomplexobj")
    return _is(x, "c")


def isrealobj(x):
    used("numpy.isrealobj")
    return not _is(x, "c")


def isscalar(x):
    return isinstance(x, (S, int, float, complex, str, np.generic))


def shape(x):
    return arr(x).shape


def ndim(x):
    return arr(x).ndim


def size(x, axis=None):
    a = arr(x)
    return a.size if axis is None else a.shape[axis]


def result_type(*xs):
    return np.result_type(*[x.dtype if isinstance(x, (S, SArr)) else PYT.get(x, x) for x in xs])


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class finfo:
    def __init__(self, dt):
        self.eps = S(num(T.Fraction(1, 2 ** 52)), DT["f"], False)
        self.tiny = S(num(T.Fraction(1, 2 ** 1022)), DT["f"], False)


class _MA:
    @staticmethod
    def array(x, mask=None, **k):
        return MaskedArray(arr(x), mask)

    def __getattr__(self, name):
        raise Unsupported(f"np.ma.{name}")


class MaskedArray:
    def __init__(self, data, mask):
        self.data, self.mask = data, mask


def copy_(x):
    return arr(x).copy()


def copyto(dst, src):
    dst[...] = src


def vectorize(*a, **k):
    raise Unsupported("np.vectorize")


def iterable(x):
    return hasattr(x, "__iter__")


def sinc(x):
    raise Unsupported("np.sinc")


def tile(x, reps):
    raise Unsupported("np.tile")


def take(x, idx, axis=None):
    x = arr(x)
    if axis is None:
        raise Unsupported("np.take of a flattened array")
    return x[tuple(idx if d == axis % x.ndim else slice(None) for d in range(x.ndim))]


class Module:
    """A library module: attributes without a contract are unsupported."""

    def __init__(self, name, items):
        self.__dict__["_name"] = name
        self.__dict__.update(items)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"{self._name}.{name}")


fft_mod = Module("numpy.fft", dict(fftn=fftn, ifftn=ifftn, fft2=fft2, ifft2=ifft2, fft=fft, ifft=ifft, fftfreq=fftfreq,
                                   fftshift=fftshift, ifftshift=ifftshift))
linalg_mod = Module("numpy.linalg", dict(norm=norm, lstsq=lstsq))

_items = dict(
    sqrt=sqrt, exp=exp, cos=cos, sin=sin, tan=tan, arcsin=arcsin, arccos=arccos, floor=floor, ceil=ceil, trunc=trunc,
    fix=trunc, rint=rint, log=log, log10=log10, absolute=absolute, abs=absolute, fabs=absolute, negative=negative,
    positive=positive, sign=sign, square=square, reciprocal=reciprocal, conjugate=conjugate, conj=conjugate,
    logical_not=logical_not, isnan=isnan, isfinite=isfinite, isinf=isinf, rad2deg=rad2deg, degrees=rad2deg,
    deg2rad=deg2rad, radians=deg2rad, angle=angle, arctan2=arctan2, hypot=hypot, maximum=maximum, fmax=fmax,
    minimum=minimum, fmin=fmin, logical_and=logical_and, logical_or=logical_or, logical_xor=logical_xor, add=add,
    subtract=subtract, multiply=multiply, divide=divide, true_divide=divide, floor_divide=floor_divide, power=power,
    float_power=power, remainder=remainder, mod=mod, less=less, less_equal=less_equal, greater=greater,
    greater_equal=greater_equal, equal=equal, not_equal=not_equal, bitwise_and=bitwise_and, bitwise_or=bitwise_or,
    round=round_, round_=round_, around=round_, real=real, imag=imag, clip=clip, where=where, array=array, asarray=asarray,
    asanyarray=asarray, ascontiguousarray=asarray, full=full, zeros=zeros, ones=ones, empty=empty, zeros_like=zeros_like,
    ones_like=ones_like, empty_like=empty_like, full_like=full_like, arange=arange, linspace=linspace, indices=indices,
    mgrid=mgrid, ogrid=ogrid, meshgrid=meshgrid, ix_=ix_, broadcast_to=broadcast_to, broadcast_arrays=broadcast_arrays,
    ravel=ravel, reshape=reshape, squeeze=squeeze, transpose=transpose, swapaxes=swapaxes, moveaxis=moveaxis,
    expand_dims=expand_dims, flip=flip, concatenate=concatenate, stack=stack, append=append, atleast_1d=atleast_1d, pad=pad,
    roll=roll, sum=np_sum, mean=mean, max=amax, amax=amax, min=amin, amin=amin, var=var, std=std, prod=prod, all=np_all,
    any=np_any, count_nonzero=count_nonzero, argmax=argmax, argmin=argmin, diff=diff, allclose=allclose,
    array_equal=array_equal, bincount=bincount, unravel_index=unravel_index, argsort=argsort, dot=dot, matmul=matmul,
    tensordot=tensordot, einsum=einsum, outer=outer, issubdtype=issubdtype, iscomplexobj=iscomplexobj, isrealobj=isrealobj,
    isscalar=isscalar, shape=shape, ndim=ndim, size=size, result_type=result_type, errstate=errstate, finfo=finfo, ma=_MA(),
    copy=copy_, copyto=copyto, iterable=iterable, take=take, newaxis=None, fft=fft_mod, linalg=linalg_mod,
    pi=None, nan=None, inf=None, e=None,
    integer=np.integer, signedinteger=np.signedinteger, unsignedinteger=np.unsignedinteger, floating=np.floating,
    complexfloating=np.complexfloating, number=np.number, inexact=np.inexact, generic=np.generic, bool_=np.bool_,
    dtype=np.dtype, AxisError=getattr(np, "AxisError", ValueError), ndarray=SArr, set_printoptions=lambda *a, **k: None,
)


class _ScalarType:
    """np.float64 and friends: callable as conversions, usable as dtypes."""


def _np_scalar(t):
    return t


for _n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64",
           "complex64", "complex128", "intp", "int_", "float_", "complex_", "double"):
    if hasattr(np, _n):
        _items[_n] = getattr(np, _n)
_items["pi"] = S(T.PI, DT["f"], True)
_items["nan"] = S(T.app("nan", (), "R"), DT["f"], True)
_items["inf"] = S(T.app("inf", (), "R"), DT["f"], True)
_items["e"] = S(T.exp(num(1)), DT["f"], True)

NP = Module("numpy", _items)
METHODS = {
    "argsort": argsort, "argmin": argmin, "std": std, "var": var, "prod": prod, "take": take, "dot": dot,
}
