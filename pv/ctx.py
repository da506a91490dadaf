"""Path exploration by re-execution: decisions at symbolic branches are replayed from a prefix."""
from . import term as T
from . import prove as P
from .term import num, eq, le, lt, band, bnot, bnot_deep


class Unsupported(BaseException):
    """The code uses something the engine has no contract for.  Not an Exception: the code must not catch it."""


class Infeasible(BaseException):
    """The current path is contradictory."""


class Ctx:
    def __init__(self, facts=None, prefix=(), parent=None):
        self.facts = facts.copy() if facts else P.Facts()
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []
        self.parent = parent
        self.notes = []
        self.cuts = {}
        self.log = []

    # facts
    def assume(self, b):
        if b is T.T:
            return
        if b.kind == "and":
            for x in b.args:
                self.assume(x)
            return
        self.facts = P.Facts(self.facts.bs + [b], self.facts.foralls)

    def assume_forall(self, sizes, fn):
        L = T.lam([T.coerce(s) for s in sizes], lambda idx: [fn(idx)])
        self.facts = P.Facts(self.facts.bs, self.facts.foralls + [L])

    def proves(self, b):
        return P.check(b, self.facts)[0] == "proved"

    def branch(self, b):
        """The truth of b on this path."""
        if b is T.T:
            return True
        if b is T.F:
            return False
        n = bnot_deep(b)
        f = self.facts
        if P.intonly(b) and not f.foralls:
            f = P.Facts([x for x in f.bs if P.intonly(x)])      # a weakening: at worst an infeasible path is explored
        if P.check(b, f)[0] == "proved":
            return True
        if P.check(n, f)[0] == "proved":
            return False
        return self.decide(lambda: self.assume(b), lambda: self.assume(n), str(b))

    def decide(self, yes, no, what=""):
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = True
            self.pending.append(self.taken + [False])
            if k > 60:
                raise Unsupported("too many branches on one path")
        self.taken.append(v)
        self.log.append((what, v))
        (yes if v else no)()
        return v


CUR = [Ctx()]


def cur():
    return CUR[0]


_busy = [False]


def _prove_hook(b):
    if _busy[0]:
        return None      # no nested queries while one is being set up: the simplification is skipped, nothing is cached
    _busy[0] = True
    try:
        return _prove(b)
    finally:
        _busy[0] = False


def _prove(b):
    f = CUR[0].facts
    if P.intonly(b):
        if not f.foralls:
            f = P.Facts([x for x in f.bs if P.intonly(x)])
    elif b.hasite:
        return False
    return P.check(b, f, quick=100)[0] == "proved"


T.STATE["prove"] = _prove_hook


_HERE = __file__.rsplit("/", 1)[0]
_NAMES = ("'S'", "'SArr'", "'SymList'", "'SymRange'", "'Quant'", "'Ravel'", "'NestedList'", "'FlatIndex'", "'Obj'", "'Method'",
          "'Opaque'", "'Module'", "'MaskedArray'", "'ListShim'", "'TupleShim'", "pv.", "object of type 'S")


def engine_limit(e):
    """Did the exception come from the engine (something it does not support) rather than from the code?

    A modelled exception is raised by a `raise` statement of a library contract or of the code itself."""
    if isinstance(e, (TypeError, AttributeError)) and any(n in str(e) for n in _NAMES):
        return True
    import linecache
    tb = e.__traceback__
    last_pv = None
    inner = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        inner = fn
        if fn.startswith(_HERE):
            last_pv = (fn, tb.tb_lineno)
        elif "pyotf" in fn:
            last_pv = None
        tb = tb.tb_next
    if last_pv is None:
        return False
    if inner == last_pv[0] and linecache.getline(*last_pv).lstrip().startswith("raise"):
        return False
    return True


class Path:
    __slots__ = ("cond", "facts", "result", "exc", "ctx", "value")

    def outcome(self):
        return "raise " + type(self.exc).__name__ if self.exc is not None else "return"


MAX_PATHS = 400
DEBUG = False


def explore(fn, facts=None, max_paths=None, check_feasible=True):
    """Run fn() on every feasible path.  Returns the list of paths; exceptions of the code are outcomes."""
    todo = [[]]
    paths = []
    outer = CUR[0]
    n = 0
    while todo:
        prefix = todo.pop()
        n += 1
        if n > (max_paths or MAX_PATHS):
            CUR[0] = outer
            raise Unsupported("too many paths")
        c = Ctx(facts, prefix, outer)
        T.reset()
        CUR[0] = c
        p = Path()
        p.exc = p.result = None
        p.ctx = c
        keep = True
        try:
            p.result = fn()
        except Infeasible:
            keep = False
        except RecursionError:
            if DEBUG:
                raise
            CUR[0] = outer
            T.reset()
            raise Unsupported("recursion")
        except Exception as e:
            if engine_limit(e):
                CUR[0] = outer
                T.reset()
                import traceback
                raise Unsupported(f"{type(e).__name__}: {e} in " + "".join(traceback.format_tb(e.__traceback__)[-2:]))
            p.exc = e
        except BaseException:
            CUR[0] = outer
            T.reset()
            raise
        p.facts = c.facts
        todo.extend(c.pending)
        if keep:
            paths.append(p)
    CUR[0] = outer
    T.reset()
    return paths


class at:
    """Work under the facts of a path (after exploration)."""

    def __init__(self, facts):
        self.facts = facts

    def __enter__(self):
        self.old = CUR[0]
        CUR[0] = Ctx(self.facts)
        T.reset()
        return CUR[0]

    def __exit__(self, *a):
        CUR[0] = self.old
        T.reset()
