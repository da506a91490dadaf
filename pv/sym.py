"""Symbolic scalars and arrays: what the real code computes with."""
import operator
from fractions import Fraction

import numpy as np

from . import term as T
from .term import B, Poly, Lam, num, eq, le, lt, band, bor, bnot, bnot_deep, ite
from .ctx import Unsupported, cur

DT = {"b": np.dtype(bool), "i": np.dtype(np.int64), "f": np.dtype(float), "c": np.dtype(complex)}


# ------------------------------------------------------------------------------------ element values
# An element is a B (bool), a Poly (int, float) or a pair of Polys (complex).

def to_num(e):
    """Element as Poly or pair."""
    return T.b2i(e) if isinstance(e, B) else e


def to_cx(e):
    e = to_num(e)
    return e if isinstance(e, tuple) else (e, num(0))


def to_bool(e):
    if isinstance(e, B):
        return e
    if isinstance(e, tuple):
        return bor(bnot(eq(e[0], num(0))), bnot(eq(e[1], num(0))))
    return bnot(eq(e, num(0)))


def eite(c, a, b):
    if isinstance(a, B) and isinstance(b, B):
        return T.bite(c, a, b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        a, b = to_cx(a), to_cx(b)
        return (ite(c, a[0], b[0]), ite(c, a[1], b[1]))
    return ite(c, to_num(a), to_num(b))


def eadd(a, b):
    if isinstance(a, B) and isinstance(b, B):
        return bor(a, b)
    a, b = to_num(a), to_num(b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        a, b = to_cx(a), to_cx(b)
        return (a[0] + b[0], a[1] + b[1])
    return a + b


def eneg(a):
    a = to_num(a)
    return (-a[0], -a[1]) if isinstance(a, tuple) else -a


def esub(a, b):
    return eadd(to_num(a), eneg(b))


def emul(a, b):
    if isinstance(a, B) and isinstance(b, B):
        return band(a, b)
    a, b = to_num(a), to_num(b)
    if isinstance(a, tuple) or isinstance(b, tuple):
        a, b = to_cx(a), to_cx(b)
        return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
    return a * b


def ediv(a, b):
    a, b = to_num(a), to_num(b)
    if isinstance(b, tuple):
        a = to_cx(a)
        d = T.inv(b[0] * b[0] + b[1] * b[1])
        return ((a[0] * b[0] + a[1] * b[1]) * d, (a[1] * b[0] - a[0] * b[1]) * d)
    i = T.inv(b)
    if isinstance(a, tuple):
        return (a[0] * i, a[1] * i)
    return a * i


def epow(a, b):
    a, b = to_num(a), to_num(b)
    if isinstance(b, tuple):
        raise Unsupported("complex exponent")
    c = b.const()
    if c is not None and c.denominator == 1:
        n = int(c)
        if isinstance(a, tuple):
            if n < 0:
                return ediv(num(1), epow(a, num(-n)))
            r = (num(1), num(0))
            for _ in range(n):
                r = emul(r, a)
            return r
        return T.power(a, n)
    if c is not None and c == Fraction(1, 2) and not isinstance(a, tuple):
        return T.sqrt(a)
    if c is not None and c == Fraction(-1, 2) and not isinstance(a, tuple):
        return T.inv(T.sqrt(a))
    if isinstance(a, tuple):
        raise Unsupported("complex base")
    if a.const() == -1 and b.sort == "I":
        # parity
        m = T.mod(b, num(2))
        return num(1) - 2 * m
    return T.app("pow", (a, b), "R")


def eabs(a):
    a = to_num(a)
    if isinstance(a, tuple):
        if not a[1].m:
            return T.absv(a[0])
        return T.sqrt(T.sum_squares(*a))
    return T.absv(a)


def eexp(a):
    a = to_num(a)
    if isinstance(a, tuple):
        m = T.exp(a[0])
        return (m * T.cos(a[1]), m * T.sin(a[1]))
    return T.exp(a)


NAN = T.app("nan", (), "R").atom().id


def has_nan(e):
    if isinstance(e, tuple):
        return has_nan(e[0]) or has_nan(e[1])
    if isinstance(e, B):
        return False
    from .prove import deep_atoms
    return NAN in deep_atoms(e)


def nan_cond(e):
    """The condition under which the value is NaN."""
    if isinstance(e, tuple):
        return bor(nan_cond(e[0]), nan_cond(e[1]))
    if not has_nan(e):
        return T.F
    out = []
    for mono, _ in e.m:
        for a, _ in mono:
            A = T.ATOMS[a]
            if a == NAN:
                return T.T
            if A.kind == "ite":
                out.append(T.bite(A.args[0], nan_cond(A.args[1]), nan_cond(A.args[2])))
            else:
                for x in A.args:
                    if isinstance(x, Poly):
                        out.append(nan_cond(x))
    return bor(*out)


def ecmp(op, a, b):
    a, b = to_num(a), to_num(b)
    if has_nan(a) or has_nan(b):
        n = bor(nan_cond(a), nan_cond(b))
        r = ecmp0(op, a, b)
        return band(bnot_deep(n), r) if op != "ne" else bor(n, r)
    return ecmp0(op, a, b)


def ecmp0(op, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        a, b = to_cx(a), to_cx(b)
        e = band(eq(a[0], b[0]), eq(a[1], b[1]))
        if op == "eq":
            return e
        if op == "ne":
            return bnot_deep(e)
        raise Unsupported("ordering of complex values")
    return {"lt": lambda: lt(a, b), "le": lambda: le(a, b), "gt": lambda: lt(b, a), "ge": lambda: le(b, a),
            "eq": lambda: eq(a, b), "ne": lambda: bnot(eq(a, b))}[op]()


def kind_of(e):
    return "b" if isinstance(e, B) else ("c" if isinstance(e, tuple) else ("i" if e.sort == "I" else "f"))


def esubst(e, sub):
    if isinstance(e, tuple):
        return (T.subst(e[0], sub), T.subst(e[1], sub))
    return T.subst(e, sub)


def cast(e, dt):
    """Element conversion on astype or on storing into an array."""
    k = dt.kind
    if k == "b":
        return to_bool(e)
    e = to_num(e)
    if k == "c":
        return to_cx(e)
    if isinstance(e, tuple):
        e = e[0]
    if k in "iu":
        e = T.trunc(e)
        return wrap(e, dt)
    return e


def machine(dt):
    """Integer types whose arithmetic is modular in the model (64 bit signed ones are treated as mathematical)."""
    return dt.kind == "u" or dt.kind == "i" and dt.itemsize < 8


def int_range(dt):
    b = 8 * dt.itemsize
    return (0, 2 ** b - 1) if dt.kind == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)


def wrap(e, dt):
    """The value of the mathematical integer e in the machine type."""
    if not machine(dt) or isinstance(e, (tuple, B)):
        return e
    lo, hi = int_range(dt)
    iv = T.interval(e)
    if iv[0] is not None and iv[0] >= lo and (iv[1] is not None and iv[1] <= hi or dt.itemsize == 8):
        return e
    if dt.itemsize == 8:
        if T.nonneg(e):
            return e
    elif T.STATE["prove"] is not None and T.STATE["prove"](band(le(num(lo), e), le(e, num(hi)))):
        return e
    return num(lo) + T.mod(e - num(lo), num(hi - lo + 1))


# -------------------------------------------------------------------------------------------- scalars

def lift(x):
    """A scalar S from a Python or numpy scalar."""
    if isinstance(x, S):
        return x
    if isinstance(x, bool):
        return S(T.bconst(x), DT["b"], True)
    if isinstance(x, int):
        return S(num(x), DT["i"], True)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return S(T.app("nan" if x != x else ("inf" if x > 0 else "ninf"), (), "R"), DT["f"], True)
        return S(num(T.frac(x)), DT["f"], True)
    if isinstance(x, complex):
        return S((num(T.frac(x.real)), num(T.frac(x.imag))), DT["c"], True)
    if isinstance(x, Fraction):
        return S(num(x), DT["f"], True)
    if isinstance(x, np.generic):
        y = x.item()
        s = lift(y)
        return S(s.v, x.dtype, False)
    if isinstance(x, SArr) and x.ndim == 0:
        return S(x.get(()), x.dtype, False)
    return None


def result_dtype(op, args):
    """numpy 1.x promotion of S and SArr operands."""
    arrs = [a.dtype for a in args if isinstance(a, SArr) and a.ndim > 0]
    scal = [a.dtype for a in args if not (isinstance(a, SArr) and a.ndim > 0)]
    if arrs:
        cat = lambda d: {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3}[d.kind]
        top = max(cat(d) for d in arrs)
        big = [d for d in scal if cat(d) > top]
        r = np.result_type(*arrs)
        for d in big:
            if d.kind == "f":
                r = np.result_type(r, np.float16 if True and r.itemsize < 2 else np.float64) if r.kind != "c" else r
            elif d.kind == "c":
                r = np.result_type(r, np.complex64) if r == np.float32 else np.dtype(complex)
            else:
                r = np.result_type(r, d)
        return r
    return np.result_type(*scal)


class S:
    """A symbolic scalar."""
    __slots__ = ("v", "dtype", "py")
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, v, dtype=None, py=True):
        self.v = v
        self.dtype = np.dtype(dtype) if dtype is not None else DT[kind_of(v)]
        self.py = py

    # constants
    def const(self):
        v = self.v
        if isinstance(v, B):
            return True if v is T.T else (False if v is T.F else None)
        if isinstance(v, tuple):
            return None
        c = v.const()
        if c is None:
            return None
        if self.dtype.kind in "iu":
            return int(c)
        return c

    def __bool__(self):
        return cur().branch(to_bool(self.v))

    def __index__(self):
        c = self.const()
        if c is None or self.dtype.kind == "f":
            if self.dtype.kind in "fc":
                raise TypeError("'float' object cannot be interpreted as an integer")
            raise Unsupported(f"symbolic value used as an index: {self.v}")
        return int(c)

    def __int__(self):
        c = self.const()
        if c is None:
            raise Unsupported("int() of a symbolic value")
        return int(c)

    def __float__(self):
        c = self.const()
        if c is None:
            raise Unsupported(f"float() of a symbolic value: {self.v}")
        return float(c)

    def __complex__(self):
        raise Unsupported("complex() of a symbolic value")

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        raise Unsupported("hash of a symbolic value")

    def __repr__(self):
        return f"<{self.v}>"

    def __str__(self):
        return f"<{self.v}>"

    def __format__(self, spec):
        return f"<{self.v}>"

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round to digits")
        return S(T.rint(to_num(self.v)), DT["i"], True)

    def __trunc__(self):
        return S(T.trunc(to_num(self.v)), DT["i"], True)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy scalar interface
    @property
    def real(self):
        return S(self.v[0], None, self.py) if isinstance(self.v, tuple) else self

    @property
    def imag(self):
        return S(self.v[1], None, self.py) if isinstance(self.v, tuple) else S(num(0), self.dtype, self.py)

    def conjugate(self):
        return S((self.v[0], -self.v[1]), self.dtype, self.py) if isinstance(self.v, tuple) else self

    conj = conjugate

    def item(self):
        return S(self.v, DT["i" if self.dtype.kind in "iu" else self.dtype.kind], True)

    def is_integer(self):
        return S(eq(T.floor(self.v), self.v), DT["b"], True)

    def __getattr__(self, name):
        if name.startswith("__") or self.py:
            raise AttributeError(name)
        if name in ("shape",):
            return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        a = SArr.const0(self)
        return getattr(a, name)

    def __neg__(self):
        if self.dtype.kind == "b":
            if not self.py:
                raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
            return S(-T.b2i(self.v), DT["i"], True)
        return S(wrap(eneg(self.v), self.dtype) if not self.py else eneg(self.v), self.dtype, self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        return S(eabs(self.v), DT["f"] if isinstance(self.v, tuple) else self.dtype, self.py)

    def __invert__(self):
        if self.dtype.kind == "b" and not self.py:
            return S(bnot_deep(self.v), self.dtype, self.py)
        return S(-to_num(self.v) - 1, DT["i"], self.py)


def _is_arr(x):
    return isinstance(x, (SArr, np.ndarray, list, tuple, SymList))


def binop(name, a, b):
    """The binary operation `name` on scalars and arrays."""
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return NotImplemented
    if isinstance(a, (SArr, np.ndarray)) or isinstance(b, (SArr, np.ndarray)) or isinstance(a, SymList) or isinstance(b, SymList):
        x, y = aslifted(a), aslifted(b)
        if x is None or y is None:
            return NotImplemented
        if not isinstance(x, SArr) and not isinstance(y, SArr):
            return scalar_op(name, x, y)
        return array_op(name, x, y)
    if isinstance(a, S) and not a.py and isinstance(b, (list, tuple)) or isinstance(b, S) and not b.py and isinstance(a, (list, tuple)):
        return binop(name, a if isinstance(a, S) else asarr(a), b if isinstance(b, S) else asarr(b))
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return NotImplemented
    return scalar_op(name, x, y)


def aslifted(x):
    if isinstance(x, SArr):
        return x if x.ndim else x
    s = lift(x)
    if s is not None:
        return s
    if isinstance(x, (np.ndarray, list, tuple, SymList)):
        return asarr(x)
    return None


def _rt(name, x, y):
    d = result_dtype(name, [x, y])
    if name == "truediv" and d.kind in "biu":
        d = DT["f"]
    if name in ("sub", "floordiv", "mod", "pow") and d.kind == "b":
        d = np.dtype(np.int8)
    return d


def scalar_op(name, x, y):
    py = x.py and y.py if isinstance(x, S) and isinstance(y, S) else False
    if isinstance(x, SArr):
        x = S(x.get(()), x.dtype, False)
    if isinstance(y, SArr):
        y = S(y.get(()), y.dtype, False)
    if name in ("lt", "le", "gt", "ge", "eq", "ne"):
        if x.dtype.kind == "c" or y.dtype.kind == "c":
            if name not in ("eq", "ne"):
                raise TypeError("'<' not supported between instances of 'complex'")
        return S(ecmp(name, x.v, y.v), DT["b"], py)
    if py and name in ("truediv", "floordiv", "mod"):
        if cur().branch(bnot_deep(to_bool(y.v))):
            raise ZeroDivisionError("division by zero")
    if py:
        ks = [x.dtype.kind, y.dtype.kind]
        k = "c" if "c" in ks else ("f" if "f" in ks else "i")
        if name == "truediv" and k == "i":
            k = "f"
        if name == "pow" and k == "i":
            c = y.v.const() if isinstance(y.v, Poly) else None
            if c is not None and c < 0:
                k = "f"
        if name in ("and", "or", "xor") and ks == ["b", "b"]:
            k = "b"
        d = DT[k]
    else:
        d = _rt(name, x, y)
    return S(elem_op(name, x.v, y.v, d), d, py)


def elem_op(name, a, b, d):
    if d.kind != "b":
        a, b = to_num(a), to_num(b)
    if name == "add":
        r = eadd(a, b)
    elif name == "sub":
        r = esub(a, b)
    elif name == "mul":
        r = emul(a, b)
    elif name == "truediv":
        r = ediv(a, b)
    elif name == "floordiv":
        a, b = to_num(a), to_num(b)
        r = T.fdiv(a, b) if a.sort == "I" and b.sort == "I" else T.floor(a * T.inv(b))
    elif name == "mod":
        a, b = to_num(a), to_num(b)
        r = T.mod(a, b) if a.sort == "I" and b.sort == "I" else a - b * T.floor(a * T.inv(b))
    elif name == "pow":
        r = epow(a, b)
    elif name in ("and", "or", "xor"):
        if d.kind != "b":
            raise Unsupported("bitwise operation on integers")
        r = {"and": lambda: band(a, b), "or": lambda: bor(a, b), "xor": lambda: bnot_deep(T.iff(a, b))}[name]()
    else:
        raise Unsupported(f"operator {name}")
    if d.kind in "iu" and name not in ("and", "or", "xor"):
        r = wrap(r, d)
    if d.kind == "c":
        r = to_cx(r)
    return r


def _install(cls):
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
        setattr(cls, f"__{n}__", lambda s, o, n=n: binop(n, s, o))
        setattr(cls, f"__r{n}__", lambda s, o, n=n: binop(n, o, s))
    for n in ("lt", "le", "gt", "ge"):
        setattr(cls, f"__{n}__", lambda s, o, n=n: binop(n, s, o))

    def _eq(s, o):
        r = binop("eq", s, o)
        return False if r is NotImplemented and not isinstance(s, SArr) else r

    def _ne(s, o):
        r = binop("ne", s, o)
        return True if r is NotImplemented and not isinstance(s, SArr) else r
    cls.__eq__ = _eq
    cls.__ne__ = _ne
    cls.__divmod__ = lambda s, o: (binop("floordiv", s, o), binop("mod", s, o))


_install(S)


def scalar(v, dt=None, py=False):
    return S(v, dt, py)


def poly(x):
    """Poly of an integer-like value."""
    if isinstance(x, Poly):
        return x
    s = lift(x)
    if s is None:
        raise TypeError(f"an integer is required, got {x!r}")
    v = to_num(s.v)
    if isinstance(v, tuple):
        raise TypeError("complex index")
    return v


def intpoly(x, what="index"):
    s = lift(x)
    if s is None or s.dtype.kind not in "iub":
        raise TypeError(f"{what} must be an integer, got {x!r}")
    return to_num(s.v)


def unpoly(p):
    """A Python int, or a symbolic one."""
    c = p.const()
    return int(c) if c is not None else S(p, DT["i"], True)


# --------------------------------------------------------------------------------------------- arrays

def memo(fn):
    tab = {}

    def f(idx):
        k = tuple(i.id for i in idx)
        r = tab.get(k)
        if r is None:
            r = tab[k] = fn(idx)
        return r
    return f


class Buf:
    __slots__ = ("fn", "shape", "writes", "shared")

    def __init__(self, fn, shape):
        self.fn = memo(fn)
        self.shape = shape
        self.writes = 0
        self.shared = False     # an array of another layout shares these data: they can no longer be written


class SArr:
    """A symbolic array: a view on a buffer."""
    __array_ufunc__ = None
    __array_priority__ = 2000
    __hash__ = None

    def __init__(self, fn, shape, dtype, buf=None, fwd=None, inv=None, writable=True):
        """fwd: view index -> buffer index; inv: buffer index -> (condition, view index)."""
        self._shape = tuple(T.coerce(s) if not isinstance(s, S) else to_num(s.v) for s in shape)
        self.dtype = np.dtype(dtype)
        self.buf = buf if buf is not None else Buf(fn, self._shape)
        self.fwd, self.inv = fwd, inv
        self.writable = writable
        self.mask = None        # for a compressed array: the key of the mask it was selected with

    @staticmethod
    def const0(s):
        v = s.v
        return SArr(lambda idx: v, (), s.dtype)

    # ---- reading
    def snap(self):
        """Element function of the current contents."""
        f = self.buf.fn
        if self.fwd is None:
            return f
        fwd = self.fwd
        return lambda idx: f(fwd(idx))

    def get(self, idx):
        return self.snap()(tuple(idx))

    @property
    def shape(self):
        return tuple(unpoly(s) for s in self._shape)

    @shape.setter
    def shape(self, new):
        new = (new,) if not isinstance(new, (tuple, list)) else tuple(new)
        a = reshape(self, new)
        if self.fwd is not None:
            raise Unsupported("assigning the shape of a view")
        f = a.snap()
        old = self.buf
        self.buf = Buf(f, a._shape)
        self._shape = a._shape
        SHARED.append(old)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        p = num(1)
        for s in self._shape:
            p = p * s
        return unpoly(p)

    @property
    def T(self):
        return transpose(self, tuple(reversed(range(self.ndim))))

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes or axes == (None,):
            axes = tuple(reversed(range(self.ndim)))
        return transpose(self, axes)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return transpose(self, tuple(ax))

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        c = self._shape[0].const()
        if c is None:
            raise Unsupported("len() of a symbolic array")
        return int(c)

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        c = self._shape[0].const()
        if c is None:
            raise Unsupported("iteration over a symbolic length")
        return iter([self[i] for i in range(int(c))])

    def __bool__(self):
        if all(s.const() == 1 for s in self._shape):
            return cur().branch(to_bool(self.get([num(0)] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __repr__(self):
        return f"<array {self._shape} {self.dtype}>"

    def __format__(self, spec):
        return repr(self)

    def __index__(self):
        if self.ndim == 0:
            return S(self.get(()), self.dtype, False).__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __float__(self):
        if self.ndim == 0:
            return float(S(self.get(()), self.dtype, False))
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    # ---- in place
    def assign(self, idxcond, value_fn, what="array"):
        """Write: view elements that satisfy idxcond(idx) become value_fn(idx)."""
        if self.writable is None or self.buf.shared:
            raise Unsupported("writing through an array that may share its data with another layout")
        if not self.writable:
            raise ValueError("assignment destination is read-only")
        old = self.buf.fn
        dt = self.dtype
        inv_ = self.inv

        def fn(bidx):
            if inv_ is None:
                c, v = T.T, bidx
            else:
                c, v = inv_(bidx)
            if c is T.F:
                return old(bidx)
            c = band(c, idxcond(v))
            if c is T.F:
                return old(bidx)
            return eite(c, cast(value_fn(v), dt), old(bidx))
        self.buf.fn = memo(fn)
        self.buf.writes += 1

    def fill(self, x):
        v = lift(x).v
        self.assign(lambda i: T.T, lambda i: v)

    def copy(self, order="C"):
        return SArr(self.snap(), self._shape, self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo_):
        return self.copy()

    def view(self, *a):
        raise Unsupported("view")

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    def __neg__(self):
        return elementwise(lambda e: wrap(eneg(e), self.dtype), [self], self.dtype)

    def __pos__(self):
        return self

    def __abs__(self):
        dt = self.dtype
        if dt.kind == "c":
            dt = np.dtype(np.float32 if dt.itemsize == 8 else float)
        return elementwise(eabs, [self], dt)

    def __invert__(self):
        if self.dtype.kind != "b":
            raise Unsupported("~ on integers")
        return elementwise(bnot_deep, [self], self.dtype)

    # ---- methods
    @property
    def real(self):
        if self.dtype.kind != "c":
            return self
        return elementwise(lambda e: to_cx(e)[0], [self], np.float32 if self.dtype.itemsize == 8 else float)

    @property
    def imag(self):
        if self.dtype.kind != "c":
            return elementwise(lambda e: num(0), [self], self.dtype)
        return elementwise(lambda e: to_cx(e)[1], [self], np.float32 if self.dtype.itemsize == 8 else float)

    def conj(self):
        return elementwise(lambda e: (e[0], -e[1]), [self], self.dtype) if self.dtype.kind == "c" else self

    conjugate = conj

    def astype(self, dt, copy=True):
        dt = np.dtype(PYT.get(dt, dt))
        if dt == self.dtype and not copy:
            return self
        return elementwise(lambda e: cast(e, dt), [self], dt)

    def item(self, *a):
        if a:
            raise Unsupported("item(i)")
        if not all(s.const() == 1 for s in self._shape):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return S(self.get([num(0)] * self.ndim), self.dtype, True)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_mean(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_max(self, axis, "max", keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_max(self, axis, "min", keepdims)

    def all(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("all along an axis")
        return quant(self, True)

    def any(self, axis=None, **k):
        if axis is not None:
            raise Unsupported("any along an axis")
        return quant(self, False)

    def __matmul__(self, o):
        from . import symnp
        return symnp.matmul(self, o)

    def __rmatmul__(self, o):
        from . import symnp
        return symnp.matmul(o, self)

    def argmax(self, axis=None):
        if axis is not None:
            raise Unsupported("argmax along an axis")
        return FlatIndex(self)

    def ravel(self, order="C"):
        return ravel(self)

    def flatten(self, order="C"):
        return ravel(self, True)

    def reshape(self, *shape, order="C"):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SArr, np.ndarray)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def tolist(self):
        return NestedList(self)

    def round(self, decimals=0):
        if decimals != 0:
            raise Unsupported("round to digits")
        return elementwise(lambda e: T.rint(to_num(e)), [self], self.dtype)

    def clip(self, lo=None, hi=None):
        r = self
        from . import symnp
        if lo is not None:
            r = symnp.maximum(r, lo)
        if hi is not None:
            r = symnp.minimum(r, hi)
        return r

    def nonzero(self):
        raise Unsupported("nonzero")

    def __array__(self, *a):
        raise Unsupported("conversion of a symbolic array to a real one")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import symnp
        f = symnp.METHODS.get(name)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        raise Unsupported(f"array attribute {name}")


_install(SArr)
SHARED = []
PYT = {float: np.dtype(float), int: np.dtype(np.int64), complex: np.dtype(complex), bool: np.dtype(bool)}


def _inplace(n):
    def f(self, o):
        y = aslifted(o)
        if y is None:
            return NotImplemented
        r = array_op(n, self, y)
        if n == "truediv" and self.dtype.kind in "iub":
            raise TypeError("ufunc 'divide' output cannot be cast")
        if {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3}[r.dtype.kind] > {"b": 0, "u": 1, "i": 1, "f": 2, "c": 3}[self.dtype.kind]:
            raise TypeError(f"Cannot cast ufunc output from {r.dtype} to {self.dtype}")
        if not isinstance(r, SArr):
            v = r.v
            fn = lambda idx: v
        else:
            check_same_shape(self, r)
            fn = r.snap()
        self.assign(lambda i: T.T, fn)
        return self
    return f


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
    setattr(SArr, f"__i{_n}__", _inplace(_n))


def check_same_shape(a, b):
    if len(a._shape) != len(b._shape):
        raise ValueError("non-broadcastable output operand")
    for x, y in zip(a._shape, b._shape):
        if not same_size(x, y):
            raise ValueError("non-broadcastable output operand")


def same_size(x, y):
    """Branches on x == y."""
    if x is y:
        return True
    return cur().branch(eq(x, y))


class NestedList:
    """The nested lists of tolist(): kept as the array they hold."""

    def __init__(self, arr):
        self.arr = arr.copy()


class SymList:
    """A list of symbolic length: item i is fn(i)."""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __len__(self):
        raise Unsupported("len() of a symbolic list")


class FlatIndex(S):
    """A flat (C order) index into an array, such as the result of argmax."""
    __slots__ = ("arr", "multi")

    def __init__(self, arr, name="argmax"):
        f = arr.snap()
        L = array_lam(lambda i: T.drop_const(f(i), i), arr._shape)
        multi = []
        for d in range(arr.ndim):
            multi.append(T.op(name, "", [L], [], d, "I"))
        self.arr = arr
        self.multi = multi
        v = num(0)
        for p, s in zip(multi, arr._shape):
            v = v * s + p
        S.__init__(self, v, DT["i"], False)
        c = cur()
        for p, s in zip(multi, arr._shape):
            c.assume(le(num(0), p))
            c.assume(lt(p, s))


def array_lam(f, shape, parts=None):
    def body(idx):
        e = f(tuple(idx))
        if isinstance(e, tuple):
            return list(e)
        return [e]
    return T.lam(list(shape), body)


# ---------------------------------------------------------------------------------------- elementwise

def broadcast_shapes(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur_ = num(1)
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if x is cur_ or x.const() == 1:
                continue
            if cur_.const() == 1:
                cur_ = x
                continue
            # both differ from 1 syntactically
            if same_size(x, cur_):
                continue
            if cur().branch(eq(cur_, num(1))):
                cur_ = x
                continue
            if cur().branch(eq(x, num(1))):
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(cur_)
    return tuple(out)


def bidx(shape, out, idx):
    """Index into an operand of the given shape for the broadcast index idx."""
    k = len(out) - len(shape)
    r = []
    for d, s in enumerate(shape):
        if s is out[k + d]:
            r.append(idx[k + d])
        elif s.const() == 1:
            r.append(num(0))
        elif cur().proves(eq(s, out[k + d])):
            r.append(idx[k + d])
        else:
            r.append(num(0))
    return tuple(r)


def elementwise(fn, args, dtype):
    """fn over broadcast elements; S operands are constants."""
    shapes = [a._shape for a in args if isinstance(a, SArr)]
    if not shapes:
        return S(fn(*[a.v for a in args]), dtype, False)
    out = broadcast_shapes(shapes) if len(shapes) > 1 else shapes[0]
    flat = [a for a in args if isinstance(a, SArr) and a.ndim]
    if flat and all(isinstance(a, Ravel) and a.mask is None and len(a.box[1]) > 1 for a in flat) and all(
            len(a.box[1]) == len(flat[0].box[1]) and all(x is y or x == y for x, y in zip(a.box[1], flat[0].box[1])) for a in flat):
        # flattened arrays of one layout: the same elements, flattened
        return Ravel(elementwise(fn, [SArr(a.box[0], a.box[1], a.dtype) if isinstance(a, Ravel) else a for a in args], dtype), True)
    parts = []
    for a in args:
        if isinstance(a, SArr):
            # decide the broadcasting now, not when an element is asked for
            pat = []
            k = len(out) - a.ndim
            for d, s in enumerate(a._shape):
                o = out[k + d]
                same = s is o or (s.const() != 1 and cur().proves(eq(s, o)))
                pat.append((k + d) if same else None)
            parts.append((a.snap(), pat))
        else:
            parts.append((None, a.v))

    def f(idx):
        vals = []
        for g, pat in parts:
            if g is None:
                vals.append(pat)
            else:
                vals.append(g(tuple(idx[p] if p is not None else num(0) for p in pat)))
        return fn(*vals)
    if not out:
        return S(f(()), dtype, False)
    r = SArr(f, out, dtype)
    for a in args:
        if isinstance(a, SArr) and a.mask is not None:
            r.mask = a.mask
    return r


def array_op(name, x, y):
    if name in ("lt", "le", "gt", "ge", "eq", "ne"):
        return elementwise(lambda a, b: ecmp(name, a, b), [x, y], DT["b"])
    d = _rt(name, x, y)
    return elementwise(lambda a, b: elem_op(name, a, b, d), [x, y], d)


# ------------------------------------------------------------------------------------------ structure

def asarr(x, dtype=None, copy=False):
    """SArr of anything array-like."""
    if isinstance(x, SArr):
        r = x
    elif isinstance(x, FlatIndex):
        r = SArr.const0(x)
    elif isinstance(x, S):
        r = SArr.const0(x)
    elif isinstance(x, np.ndarray) or isinstance(x, np.generic):
        r = from_numpy(np.asarray(x))
    elif isinstance(x, NestedList):
        r = x.arr.copy()
    elif isinstance(x, SymList):
        r = from_symlist(x)
    elif isinstance(x, (list, tuple)):
        r = from_list(list(x))
    elif isinstance(x, range):
        r = from_numpy(np.array(x))
    else:
        s = lift(x)
        if s is None:
            if isinstance(x, (str, bytes)) or x is None or isinstance(x, dict):
                raise TypeError(f"cannot make a numeric array of {x!r}")
            raise Unsupported(f"array of {type(x).__name__}")
        r = SArr.const0(s)
    if dtype is not None:
        dt = np.dtype(PYT.get(dtype, dtype))
        if dt != r.dtype:
            return to_arr(r.astype(dt))
    if copy and r is x:
        return r.copy()
    return r


def to_arr(x):
    return SArr.const0(x) if isinstance(x, S) else x


def from_numpy(a):
    if a.dtype.kind not in "biufc":
        raise Unsupported(f"array of dtype {a.dtype}")
    if a.ndim == 0:
        return SArr.const0(S(lift(a.item()).v, a.dtype, False))
    data = a.copy()

    def fn(idx):
        cs = [i.const() for i in idx]
        if all(c is not None for c in cs):
            return lift(data[tuple(int(c) for c in cs)].item()).v
        if data.size > 16 and data.dtype.kind in "iuf":
            return table(data, idx)
        return lookup(lambda k: lift(data[k].item()).v, data.shape, idx)
    return SArr(fn, [num(s) for s in a.shape], a.dtype)


TABLES = {}


def table(data, idx):
    """Element of a large constant table at a symbolic index."""
    key = (data.shape, data.dtype.kind, tuple(data.ravel().tolist()))
    tid = TABLES.setdefault(key, len(TABLES))
    TABLES[tid] = data
    return T.app("table", tuple(idx), "R" if data.dtype.kind == "f" else "I", params=tid)


def _rebuild_table(A, args):
    data = TABLES[A.params]
    cs = [a.const() for a in args]
    if all(c is not None for c in cs) and all(0 <= c < n for c, n in zip(cs, data.shape)):
        return num(T.frac(data[tuple(int(c) for c in cs)].item())) if data.dtype.kind == "f" else \
            num(int(data[tuple(int(c) for c in cs)]))
    return None


T.REBUILD["table"] = _rebuild_table


def _table_bounds(A):
    data = TABLES[A.params]
    inr = band(*[band(le(num(0), i), lt(i, num(n))) for i, n in zip(A.args, data.shape)])
    x = T.mono1(A)
    v = lambda q: num(T.frac(q.item())) if data.dtype.kind == "f" else num(int(q))
    return [T.implies(inr, band(le(v(data.min()), x), le(x, v(data.max()))))]


def lookup(fn, shape, idx):
    """Element of a small concrete table at a symbolic index, as an if-then-else chain."""
    if not shape:
        return fn(())
    c = idx[0].const()
    if c is not None:
        return lookup(lambda k: fn((int(c),) + k), shape[1:], idx[1:])
    vals = [lookup(lambda k, j=j: fn((j,) + k), shape[1:], idx[1:]) for j in range(shape[0])]
    if not vals:
        return num(0)
    r = vals[-1]
    for j in range(shape[0] - 2, -1, -1):
        r = eite(eq(idx[0], num(j)), vals[j], r)
    return r


def from_list(xs):
    if not xs:
        return from_numpy(np.array([]))
    items = [x if isinstance(x, S) else asarr(x) for x in xs]
    items = [SArr.const0(x) if isinstance(x, S) else x for x in items]
    nd = items[0].ndim
    if any(i.ndim != nd for i in items):
        raise ValueError("setting an array element with a sequence: inhomogeneous shape")
    shape = items[0]._shape
    for i in items[1:]:
        for a, b in zip(shape, i._shape):
            if not same_size(a, b):
                raise ValueError("inhomogeneous shape")
    dt = np.result_type(*[i.dtype for i in items])
    if any(isinstance(x, S) and x.py for x in xs) and all(isinstance(x, S) or not hasattr(x, "dtype") for x in xs):
        dt = np.result_type(*[i.dtype for i in items])
    fs = [i.snap() for i in items]

    def fn(idx):
        return lookup(lambda k: cast(fs[k[0]](tuple(idx[1:])), dt), (len(fs),), (idx[0],))
    return SArr(fn, (num(len(fs)),) + shape, dt)


def from_symlist(x):
    v = T.fresh("u", "I")
    p = T.mono1(v)
    item = x.fn(p)
    item = asarr(item) if not isinstance(item, S) else SArr.const0(item)
    if any(v.id in s.fv for s in item._shape):
        raise Unsupported("ragged list")
    f = item.snap()
    return SArr(lambda idx: esubst(f(tuple(idx[1:])), {v.id: idx[0]}), (x.n,) + item._shape, item.dtype)


def transpose(a, axes):
    axes = [x % a.ndim for x in axes]
    inv_axes = [axes.index(d) for d in range(a.ndim)]

    def fwd(idx):
        return tuple(idx[inv_axes[d]] for d in range(len(idx)))
    return subview(a, [a._shape[x] for x in axes], fwd, lambda v: (T.T, tuple(v[x] for x in axes)))


def subview(a, shape, fwd, inv):
    """A view of view a: fwd maps new index -> a's index; inv maps a's index -> (cond, new index)."""
    f0, i0 = a.fwd, a.inv
    nf = fwd if f0 is None else (lambda idx: f0(tuple(fwd(idx))))

    def ni(b):
        if i0 is None:
            return inv(b)
        c, v = i0(b)
        if c is T.F:
            return c, None
        c2, v2 = inv(v)
        return band(c, c2), v2
    return SArr(None, shape, a.dtype, buf=a.buf, fwd=lambda idx: tuple(nf(idx)), inv=ni, writable=a.writable)


def norm_slice(sl, n):
    """(start, length, step) of a slice on an axis of size n, as Polys; branches on symbolic bounds."""
    st = sl.step
    if st is not None:
        st = lift(st).const()
        if st is None:
            raise Unsupported("symbolic slice step")
        st = int(st)
        if st == 0:
            raise ValueError("slice step cannot be zero")
    else:
        st = 1
    for b in (sl.start, sl.stop):
        if b is not None:
            s = lift(b)
            if s is None or s.dtype.kind not in "iub":
                raise TypeError("slice indices must be integers or None or have an __index__ method")
    if st < 0:
        if sl.start is None and sl.stop is None and st == -1:
            return n - 1, n, -1
        raise Unsupported("slice with a negative step")

    def bound(x, default):
        if x is None:
            return default
        p = poly(x)
        lo = ite(lt(p, num(0)), T.maxv(p + n, num(0)), T.minv(p, n))
        return resolve(lo)
    a, b = bound(sl.start, num(0)), bound(sl.stop, n)
    ln = resolve(T.maxv(b - a, num(0)))
    if st != 1:
        ln = T.fdiv(ln + (st - 1), num(st))
    return a, ln, st


def resolve(p):
    """Simplify the ites of p by what is known on the path."""
    from . import prove as P
    for _ in range(8):
        cs = P.ite_conds(p)
        done = True
        for c in cs:
            for l in P.leaf_conds(c):
                if cur().proves(l):
                    p = P.assume_in(p, l, True)
                    done = False
                    break
                if cur().proves(bnot_deep(l)):
                    p = P.assume_in(p, l, False)
                    done = False
                    break
            if not done:
                break
        if done:
            break
    for a in list(p.atoms()):
        A = T.ATOMS[a]
        if A.kind == "ite" and not A.args[1].hasite and not A.args[2].hasite:
            for k in (2, 1):
                c = A.args[0] if k == 2 else bnot_deep(A.args[0])
                if cur().proves(T.implies(c, eq(A.args[1], A.args[2]))):
                    p = T.subst_atoms(p, {a: A.args[k]})
                    break
    return p


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n_used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, (SArr, np.ndarray)) and k.dtype.kind == "b":
            n_used += k.ndim
        else:
            n_used += 1
    if any(k is Ellipsis for k in key):
        i = [j for j, k in enumerate(key) if k is Ellipsis]
        if len(i) > 1:
            raise IndexError("an index can only have a single ellipsis ('...')")
        key[i[0]:i[0] + 1] = [slice(None)] * (a.ndim - n_used)
    else:
        key += [slice(None)] * (a.ndim - n_used)
    if n_used > a.ndim:
        raise IndexError("too many indices for array")
    return key


def scalar_index(k, n):
    """Poly of an integer index on an axis of size n; raises IndexError when out of bounds."""
    s = lift(k)
    if s is None or s.dtype.kind not in "iu":
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    p = to_num(s.v)
    if not cur().branch(band(le(-n, p), lt(p, n))):
        raise IndexError("index out of bounds")
    return resolve(ite(lt(p, num(0)), p + n, p))


def scalar_mask(a, key):
    """A single boolean index on a 0-d array: the key it amounts to, once its truth is known; None when there is none."""
    if a.ndim:
        return None
    k = key
    if isinstance(k, tuple):
        k = [x for x in k if x is not Ellipsis]
        if len(k) != 1:
            return None
        k = k[0]
    if isinstance(k, (SArr, np.ndarray)):
        if k.ndim or k.dtype.kind != "b":
            return None
        k = asarr(k).get(())
    elif isinstance(k, S) and k.dtype.kind == "b":
        k = k.v
    elif isinstance(k, (bool, np.bool_)):
        k = T.T if k else T.F
    else:
        return None
    return cur().branch(to_bool(k))


def getitem(a, key):
    t = scalar_mask(a, key)
    if t is not None:
        r = getitem(a, (None,))
        return SArr(r.snap(), (num(1),), a.dtype) if t else SArr(lambda idx: (num(0), num(0)) if a.dtype.kind == "c" else T.F if a.dtype.kind == "b" else num(0), (num(0),), a.dtype)
    key = expand_key(a, key)
    key = [asarr(k) if isinstance(k, (list, np.ndarray)) else k for k in key]
    if any(isinstance(k, SArr) and not (k.ndim == 0 and k.dtype.kind in "iu") for k in key):
        return fancy_get(a, key)
    shape, plan, d = [], [], 0
    for k in key:
        if k is None:
            shape.append(num(1))
            plan.append(("new",))
        elif isinstance(k, slice):
            n = a._shape[d]
            st, ln, step = norm_slice(k, n)
            full = step == 1 and st.const() == 0 and ln is n
            shape.append(ln)
            plan.append(("slice", d, st, ln, step, full))
            d += 1
        else:
            p = scalar_index(k, a._shape[d])
            plan.append(("int", d, p))
            d += 1

    nd = a.ndim

    def fwd(idx):
        out = [None] * nd
        j = 0
        for p in plan:
            if p[0] == "new":
                j += 1
            elif p[0] == "slice":
                out[p[1]] = idx[j] if p[5] else (p[2] + idx[j] if p[4] == 1 else p[2] + T.scale(idx[j], p[4]))
                j += 1
            else:
                out[p[1]] = p[2]
        return tuple(out)

    def inv(v):
        c, out = [], []
        for p in plan:
            if p[0] == "new":
                out.append(num(0))
            elif p[0] == "slice":
                if p[5]:
                    out.append(v[p[1]])
                else:
                    q = v[p[1]] - p[2]
                    if p[4] == 1:
                        c += [le(num(0), q), lt(q, p[3])]
                        out.append(q)
                    else:
                        s = num(p[4])
                        f = T.fdiv(q, s)
                        c += [eq(f * s, q), le(num(0), f), lt(f, p[3])]
                        out.append(f)
            else:
                c.append(eq(v[p[1]], p[2]))
        return band(*c), tuple(out)
    r = subview(a, shape, fwd, inv)
    if not shape:
        return S(r.get(()), a.dtype, False)
    return r


def mask_lam(m):
    f = m.snap()
    return array_lam(lambda i: to_bool(f(i)), m._shape)


def nz(L, d, k):
    """Coordinate d of the k-th true position of the mask."""
    A = k.atom()
    if A is not None and A.kind == "op" and A.name == "rank" and A.args[0].key() == L.key():
        return A.args[1 + d]
    NZ_USED.append(L) if not NZ_USED else None
    return T.op("nz", "", [L], [k], d, "I")


NZ_USED = []


def _masked_sum(sizes, vs, body):
    """A sum over the true positions of a mask, in order, is the sum over the mask of the elements where it is true."""
    if not NZ_USED:
        return None
    for i, v in enumerate(vs):
        if v.id not in body.fv:
            continue
        hits = [T.ATOMS[a] for a in _P._all_atoms(body)]
        hits = [A for A in hits if A.kind == "op" and A.name == "nz" and A.args[1].atom() is v]
        if not hits or any(A.args[0].key() != hits[0].args[0].key() for A in hits):
            continue
        L = hits[0].args[0]
        if any(w.id in L.fv for w in vs):
            continue
        if T.ssum(list(L.sizes), lambda idx: T.b2i(L.open(idx)[0])) is not sizes[i]:
            continue
        ws = [T.fresh("u", "I") for _ in L.sizes]
        new = T.replace(body, {A.id: T.mono1(ws[A.params[1]]) for A in hits})
        if v.id in new.fv:
            continue
        new = T.ite(L.open([T.mono1(w) for w in ws])[0], new, num(0))
        return list(sizes[:i]) + list(L.sizes) + list(sizes[i + 1:]), list(vs[:i]) + ws + list(vs[i + 1:]), new
    return None


T.SUM_HOOKS.append(_masked_sum)


def rank(L, idx):
    return T.op("rank", "", [L], list(idx), 0, "I")


def _rebuild_nz(A, args):
    return nz(args[0], A.params[1], args[1])


T.REBUILD["nz"] = _rebuild_nz


def count_true(L):
    p = T.ssum(list(L.sizes), lambda idx: T.b2i(L.open(idx)[0]))
    cur().assume(le(num(0), p))
    return p


def fancy_get(a, key):
    masks = [i for i, k in enumerate(key) if isinstance(k, SArr) and k.dtype.kind == "b"]
    f = a.snap()
    if masks:
        if len(masks) > 1 or any(not (isinstance(k, slice) and k == slice(None)) for i, k in enumerate(key) if i not in masks):
            raise Unsupported("mixed boolean indexing")
        pre = masks[0]
        m = key[pre]
        for x, y in zip(m._shape, a._shape[pre:pre + m.ndim]):
            if not same_size(x, y):
                raise IndexError("boolean index did not match indexed array")
        L = mask_lam(m)
        cnt = count_true(L)
        md = m.ndim
        shape = a._shape[:pre] + (cnt,) + a._shape[pre + md:]

        def fn(idx):
            k = idx[pre]
            pos = tuple(nz(L, d, k) for d in range(md))
            return f(tuple(idx[:pre]) + pos + tuple(idx[pre + 1:]))
        r = SArr(fn, shape, a.dtype)
        r.mask = (L, pre)
        return r
    # integer arrays
    pos = [i for i, k in enumerate(key) if isinstance(k, SArr)]
    if any(k is None for k in key) or any(not isinstance(k, (SArr, slice)) for k in key):
        raise Unsupported("mixed fancy indexing")
    if pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("separated fancy indices")
    arrs = [key[i] for i in pos]
    for k in arrs:
        if k.dtype.kind not in "iu":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
    out = broadcast_shapes([k._shape for k in arrs])
    if any(not (isinstance(k, slice) and k == slice(None)) for i, k in enumerate(key) if i not in pos):
        b = a[tuple(k if i not in pos else slice(None) for i, k in enumerate(key))]
        return fancy_get(b, [slice(None) if i not in pos else k for i, k in enumerate(key)])
    ge = []
    for j, k in zip(pos, arrs):
        n = a._shape[j]
        inb = elementwise(lambda e, n=n: band(le(-n, e), lt(e, n)), [k], DT["b"])
        if not bool(quant(inb, True)):
            raise IndexError("index out of bounds")
        ge.append((k.snap(), k._shape, n))
    p0, q = pos[0], len(pos)
    shape = a._shape[:p0] + out + a._shape[p0 + q:]

    def fn(idx):
        mid = idx[p0:p0 + len(out)]
        sel = []
        for g, sh, n in ge:
            e = g(bidx(sh, out, mid))
            # negative indices count from the end
            sel.append(resolve(ite(lt(e, num(0)), e + n, e)) if e.const() is None else (e if e.const() >= 0 else e + n))
        return f(tuple(idx[:p0]) + tuple(sel) + tuple(idx[p0 + len(out):]))
    return SArr(fn, shape, a.dtype)


def setitem(a, key, value):
    t = scalar_mask(a, key)
    if t is not None:
        if t:
            setitem(getitem_view(a, [None]), (slice(None),), value)
        return
    key = expand_key(a, key)
    key = [asarr(k) if isinstance(k, (list, np.ndarray)) else k for k in key]
    masks = [i for i, k in enumerate(key) if isinstance(k, SArr) and k.dtype.kind == "b"]
    if masks:
        if len(masks) > 1 or any(not (isinstance(k, slice) and k == slice(None)) for i, k in enumerate(key) if i not in masks):
            raise Unsupported("mixed boolean indexing")
        pre = masks[0]
        m = key[pre]
        md = m.ndim
        for x, y in zip(m._shape, a._shape[pre:pre + md]):
            if not same_size(x, y):
                raise IndexError("boolean index did not match indexed array")
        L = mask_lam(m)
        mf = m.snap()
        v = aslifted(value)
        if isinstance(v, SArr) and v.ndim == 0:
            v = S(v.get(()), v.dtype, False)
        if isinstance(v, S):
            vf = lambda idx: v.v
        else:
            cnt = count_true(L)
            tgt = a._shape[:pre] + (cnt,) + a._shape[pre + md:]
            if v.ndim > len(tgt):
                raise ValueError("shape mismatch")
            pat = []
            off = len(tgt) - v.ndim
            for d, s in enumerate(v._shape):
                if same_size(s, tgt[off + d]):
                    pat.append(off + d)
                elif s.const() == 1 or cur().branch(eq(s, num(1))):
                    pat.append(None)
                else:
                    raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
            g = v.snap()

            def vf(idx):
                c = tuple(idx[:pre]) + (rank(L, idx[pre:pre + md]),) + tuple(idx[pre + md:])
                return g(tuple(c[p] if p is not None else num(0) for p in pat))
        a.assign(lambda idx: to_bool(mf(tuple(idx[pre:pre + md]))), vf)
        return
    if any(isinstance(k, SArr) and k.ndim > 0 for k in key):
        raise Unsupported("assignment through an index array")
    plain = all(isinstance(k, slice) and k == slice(None) for k in key)
    tgt = a if plain else getitem_view(a, key)
    v = aslifted(value)
    if v is None:
        raise TypeError(f"cannot store {value!r} in an array")
    if a.dtype.kind != "c" and v.dtype.kind == "c":
        if isinstance(v, S) or v.ndim == 0:
            raise TypeError("can't convert complex to float")
    if isinstance(v, S):
        tgt.assign(lambda idx: T.T, lambda idx: v.v)
        return
    while v.ndim > tgt.ndim:
        if not cur().branch(eq(v._shape[0], num(1))):
            raise ValueError("could not broadcast input array")
        v = v[0] if v.ndim > 1 else S(v.get((num(0),)), v.dtype, False)
        if isinstance(v, S):
            tgt.assign(lambda idx: T.T, lambda idx: v.v)
            return
    pat = []
    off = tgt.ndim - v.ndim
    for d, s in enumerate(v._shape):
        if same_size(s, tgt._shape[off + d]):
            pat.append(off + d)
        elif s.const() == 1 or cur().branch(eq(s, num(1))):
            pat.append(None)
        else:
            raise ValueError("could not broadcast input array")
    g = v.snap()
    tgt.assign(lambda idx: T.T, lambda idx: g(tuple(idx[p] if p is not None else num(0) for p in pat)))


def getitem_view(a, key):
    """Like getitem, but always an array view (0-d for a single element)."""
    ints = [k for k in key]
    key2 = []
    for k in ints:
        key2.append(k)
    r = None
    shape, plan, d = [], [], 0
    for k in key2:
        if k is None:
            shape.append(num(1))
            plan.append(("new",))
        elif isinstance(k, slice):
            st, ln, step = norm_slice(k, a._shape[d])
            if step != 1:
                raise Unsupported("assignment with a step")
            shape.append(ln)
            plan.append(("slice", d, st, ln))
            d += 1
        else:
            plan.append(("int", d, scalar_index(k, a._shape[d])))
            d += 1
    nd = a.ndim

    def fwd(idx):
        out = [None] * nd
        j = 0
        for p in plan:
            if p[0] == "new":
                j += 1
            elif p[0] == "slice":
                out[p[1]] = p[2] + idx[j]
                j += 1
            else:
                out[p[1]] = p[2]
        return tuple(out)

    def inv(v):
        c, out = [], []
        for p in plan:
            if p[0] == "new":
                out.append(num(0))
            elif p[0] == "slice":
                q = v[p[1]] - p[2]
                c += [le(num(0), q), lt(q, p[3])]
                out.append(q)
            else:
                c.append(eq(v[p[1]], p[2]))
        return band(*c), tuple(out)
    return subview(a, shape, fwd, inv)


class Ravel(SArr):
    """A flattened array that remembers the box it came from."""

    def __init__(self, base, copy=False):
        n = num(1)
        for s in base._shape:
            n = n * s
        f = base.snap()
        base.buf.shared = base.buf.shared or not copy
        sh = base._shape

        def fn(idx):
            return f(unflatten(idx[0], sh))
        super().__init__(fn, (n,), base.dtype, writable=True if copy else None)
        self.box_ = (f, sh)

    @property
    def box(self):
        return (self.snap(), self._shape) if self.buf.writes else self.box_


def unflatten(k, shape):
    out = []
    for s in reversed(shape[1:]):
        q = T.fdiv(k, s)
        out.append(k - q * s)
        k = q
    if shape:
        out.append(k)
    return tuple(reversed(out))


def ravel(a, copy=False):
    if a.ndim == 1 and not copy:
        return a[:]
    return Ravel(a, copy)


def match_groups(old, new, ones=False):
    """Old and new dimensions in groups whose products agree, or None."""
    groups, i, j = [], 0, 0
    one = lambda p: p.const() == 1
    while i < len(old) or j < len(new):
        if i < len(old) and (j == len(new) or ones and one(old[i]) and not one(new[j])):
            if not one(old[i]):
                return None
            groups.append(([i], []))
            i += 1
        elif j < len(new) and (i == len(old) or ones and one(new[j]) and not one(old[i])):
            if not one(new[j]):
                return None
            groups.append(([], [j]))
            j += 1
        else:
            gi, gj = [i], [j]
            po, pn = old[i], new[j]
            i, j = i + 1, j + 1
            if not _eqsize(po, pn):
                # new has several dimensions for this old one (or the other way round)
                q, done = pn, False
                for nj in range(j, len(new)):
                    q = q * new[nj]
                    if _eqsize(po, q):
                        gj, j, done = list(range(gj[0], nj + 1)), nj + 1, True
                        break
                if not done:
                    q = po
                    for ni in range(i, len(old)):
                        q = q * old[ni]
                        if _eqsize(pn, q):
                            gi, i, done = list(range(gi[0], ni + 1)), ni + 1, True
                            break
                if not done:
                    return None
            groups.append((gi, gj))
    return groups


def reshape(a, shape):
    shape = list(shape)
    ps = []
    unk = None
    for i, s in enumerate(shape):
        p = intpoly(s, "shape")
        if p.const() == -1:
            if unk is not None:
                raise ValueError("can only specify one unknown dimension")
            unk = i
            ps.append(None)
        else:
            ps.append(p)
    old = list(a._shape)
    if isinstance(a, Ravel):
        f0, sh0 = a.box
        old = list(sh0)
        base = f0
    else:
        base = a.snap()
    tot = num(1)
    for s in old:
        tot = tot * s
    if unk is not None:
        known = num(1)
        for p in ps:
            if p is not None:
                known = known * p
        if known.const() == 1:
            ps[unk] = tot
        else:
            ps[unk] = T.fdiv(tot, known)
    new = ps
    groups = match_groups(old, new)
    c = cur()
    if groups is None:
        # a size that is one on this path can be dropped or inserted anywhere
        unit = lambda sh: [num(1) if p.const() is None and c.proves(eq(p, num(1))) else p for p in sh]
        groups = match_groups(unit(old), unit(new), True)
    if groups is not None:
        def fn(idx):
            out = [num(0)] * len(old)
            for gi, gj in groups:
                if len(gi) == 1 and len(gj) == 1:
                    out[gi[0]] = idx[gj[0]]
                    continue
                if not gi or not gj:
                    continue
                k = num(0)
                for t in gj:
                    k = k * new[t] + idx[t]
                for t, v in zip(gi, unflatten(k, [old[t] for t in gi])):
                    out[t] = v
            return base(tuple(out))
        # a view of contiguous data in numpy: writes to it are only supported when nothing is regrouped
        simple = all(len(gi) <= 1 and len(gj) <= 1 for gi, gj in groups) and not isinstance(a, Ravel)
        if simple:
            def fwd(idx):
                out = [num(0)] * len(old)
                for gi, gj in groups:
                    if gi and gj:
                        out[gi[0]] = idx[gj[0]]
                return tuple(out)

            def inv(v):
                out = [num(0)] * len(new)
                for gi, gj in groups:
                    if gi and gj:
                        out[gj[0]] = v[gi[0]]
                return T.T, tuple(out)
            return subview(a, new, fwd, inv)
        a.buf.shared = True
        return SArr(fn, new, a.dtype, writable=None)
    # sizes do not match group by group
    prod = num(1)
    for p in new:
        prod = prod * p
    if smaller(old, new) or c.branch(eq(prod, tot)) is False:
        raise ValueError(f"cannot reshape array of size {tot} into shape {tuple(new)}")
    raise Unsupported("reshape that regroups symbolic sizes")


def smaller(old, new):
    """Group the new sizes evenly over the old ones: if every group's product is at most its old size, and one is
    strictly smaller while all old sizes are positive, the total is strictly smaller."""
    if not old or len(new) % len(old):
        return False
    c = cur()
    k = len(new) // len(old)
    strict = False
    for i, o in enumerate(old):
        q = num(1)
        for p in new[i * k:i * k + k]:
            q = q * p
        if not (c.proves(le(num(1), o)) and c.proves(le(num(0), q)) and c.proves(le(q, o))):
            return False
        strict = strict or c.proves(lt(q, o))
    return strict


def _eqsize(a, b):
    return a is b or cur().proves(eq(a, b))


def squeeze(a, axis=None):
    axes = range(a.ndim) if axis is None else ([axis] if not isinstance(axis, (tuple, list)) else axis)
    axes = [x % a.ndim for x in axes] if a.ndim else []
    drop = []
    for x in axes:
        if cur().branch(eq(a._shape[x], num(1))):
            drop.append(x)
        elif axis is not None:
            raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    if not drop:
        return a
    keep = [d for d in range(a.ndim) if d not in drop]
    if not keep:
        r = SArr(a.snap(), a._shape, a.dtype)
        return SArr.const0(S(r.get([num(0)] * a.ndim), a.dtype, False))

    def fwd(idx):
        out = [num(0)] * a.ndim
        for j, d in enumerate(keep):
            out[d] = idx[j]
        return tuple(out)
    return subview(a, [a._shape[d] for d in keep], fwd, lambda v: (T.T, tuple(v[d] for d in keep)))


# ----------------------------------------------------------------------------------------- reductions

def norm_axes(axis, nd):
    if axis is None:
        return list(range(nd))
    if not isinstance(axis, (tuple, list)):
        axis = [axis]
    out = []
    for x in axis:
        x = operator.index(x)
        if not -nd <= x < nd:
            raise np.AxisError(x, nd) if hasattr(np, "AxisError") else ValueError("axis out of bounds")
        out.append(x % nd)
    return out


def _reduce(a, axis, keepdims, fn, dtype):
    """fn(sizes, element function of the reduced index list) -> element."""
    axes = norm_axes(axis, a.ndim)
    f = a.snap()
    keep = [d for d in range(a.ndim) if d not in axes]
    shape = [a._shape[d] for d in keep]
    box = isinstance(a, Ravel)
    if box:
        f, sh = a.box
        if keepdims:
            raise Unsupported("keepdims on a flattened array")
        return S(fn(list(sh), lambda r: f(tuple(r))), dtype, False)

    def g(idx):
        def el(r):
            full = [None] * a.ndim
            for d, i in zip(keep, idx):
                full[d] = i
            for d, i in zip(axes, r):
                full[d] = i
            return f(tuple(full))
        return fn([a._shape[d] for d in axes], el)
    if keepdims:
        full = [a._shape[d] if d in keep else num(1) for d in range(a.ndim)]
        return SArr(lambda idx: g(tuple(idx[d] for d in keep)), full, dtype)
    if not keep:
        return S(g(()), dtype, False)
    return SArr(g, shape, dtype)


def sum_elem(sizes, el):
    e0 = []

    def part(k):
        def body(idx):
            e = to_num(el(idx))
            if isinstance(e, tuple):
                return e[k]
            return e if k == 0 else num(0)
        return body
    vs = [T.fresh("u", "I") for _ in sizes]
    e = to_num(el([T.mono1(v) for v in vs]))
    if isinstance(e, tuple):
        return (T.ssum(sizes, part(0)), T.ssum(sizes, part(1)))
    return T.ssum(sizes, part(0))


def reduce_sum(a, axis=None, keepdims=False):
    dt = a.dtype
    if dt.kind in "bi":
        dt = DT["i"] if dt.kind == "b" or dt.itemsize < 8 else dt
    elif dt.kind == "u":
        dt = np.dtype(np.uint64)
    return _reduce(a, axis, keepdims, sum_elem, dt)


def reduce_mean(a, axis=None, keepdims=False):
    dt = a.dtype if a.dtype.kind in "fc" else DT["f"]

    def fn(sizes, el):
        n = num(1)
        for s in sizes:
            n = n * s
        return ediv(sum_elem(sizes, el), n)
    return _reduce(a, axis, keepdims, fn, dt)


def reduce_max(a, axis, name, keepdims=False):
    dt = a.dtype

    def fn(sizes, el):
        if dt.kind == "c":      # numpy orders complex values lexicographically; nothing but determinism is assumed
            L = T.lam(list(sizes), lambda idx: list(to_cx(el(idx))))
            return tuple(T.op(name, "complex", [L], [], k) for k in (0, 1))
        cs = [s.const() for s in sizes]
        if all(c is not None for c in cs) and len(cs) == 1 and 0 < cs[0] <= 16:
            r = to_num(el([num(0)]))
            for k in range(1, int(cs[0])):
                r = (T.maxv if name == "max" else T.minv)(r, to_num(el([num(k)])))
            return r
        L = T.lam(list(sizes), lambda idx: [to_num(el(idx))])
        return T.op(name, "", [L], [], 0, L.bodies[0].sort)
    return _reduce(a, axis, keepdims, fn, dt)


def quant(a, univ):
    """Result of .all() (univ) or .any(): a scalar whose truth value branches and leaves facts."""
    f = a.snap()
    cs = [s.const() for s in a._shape]
    n = 1
    for c in cs:
        n = n * c if c is not None and n is not None else None
    if n is not None and n <= 256:
        import itertools
        bs = [to_bool(f(tuple(num(i) for i in idx))) for idx in itertools.product(*[range(int(c)) for c in cs])]
        return S(band(*bs) if univ else bor(*bs), DT["b"], False)
    return Quant(f, a._shape, univ)


class Quant(S):
    """forall / exists over the elements of an array."""
    __slots__ = ("f", "shape_", "univ", "neg")

    def __init__(self, f, shape, univ, neg=False):
        self.f, self.shape_, self.univ = f, shape, univ
        L = array_lam(lambda i: to_bool(f(i)), shape)
        S.__init__(self, T.bapp("all" if univ else "any", [L]), DT["b"], False)

    def __bool__(self):
        c = cur()
        f, shape = self.f, self.shape_
        idx = [T.mono1(T.fresh("q", "I")) for _ in shape]
        b = to_bool(f(tuple(idx)))
        rng = [le(num(0), i) for i in idx] + [lt(i, s) for i, s in zip(idx, shape)]
        from . import prove as P
        # valid for an arbitrary index?
        want = b if self.univ else bnot_deep(b)
        f2 = P.Facts(c.facts.bs + rng, c.facts.foralls)
        if P.check(want, f2)[0] == "proved":
            c.assume_forall(shape, lambda i: to_bool(f(tuple(i))) if self.univ else bnot_deep(to_bool(f(tuple(i)))))
            return self.univ
        k = T.bapp("all" if self.univ else "any", [array_lam(lambda i: to_bool(f(i)), shape)])
        if k in c.facts.bs:
            return True
        if bnot_deep(k) in c.facts.bs:
            return False

        def forall(val):
            def go():
                c.assume_forall(shape, lambda i: to_bool(f(tuple(i))) if val else bnot_deep(to_bool(f(tuple(i)))))
                c.assume(k if self.univ else bnot_deep(k))
            return go

        def exists(val):
            def go():
                for r in rng:
                    c.assume(r)
                c.assume(b if val else bnot_deep(b))
                c.assume(bnot_deep(k) if self.univ else k)
                if not P.feasible(c.facts):
                    from .ctx import Infeasible
                    raise Infeasible()
            return go
        if self.univ:
            return c.decide(forall(True), exists(False), f"all {b}")
        return c.decide(exists(True), forall(False), f"any {b}")

    def __invert__(self):
        f = self.f
        return Quant(lambda i: bnot_deep(to_bool(f(i))), self.shape_, not self.univ)


from . import prove as _P
_P.AXIOM_HOOKS[("app", "table")] = _table_bounds
