"""A recording stand-in for matplotlib: every call is noted with its arguments."""
from .ctx import Unsupported


class Obj:
    """An object of the drawing library; unknown methods are recorded and return new objects."""

    def __init__(self, rec, kind, args=(), kw=None):
        d = self.__dict__
        d["_rec"], d["_kind"], d["args"], d["kw"] = rec, kind, args, kw or {}
        d["calls"] = []
        d["_attrs"] = {}

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_pv"):
            raise AttributeError(name)
        a = self._attrs.get(name)
        if a is None:
            a = self._attrs[name] = Method(self, name)
        return a

    def __setattr__(self, name, value):
        self._attrs[name] = value

    def __iter__(self):
        raise Unsupported(f"iteration over {self._kind}")

    def __getitem__(self, i):
        raise Unsupported(f"an item of {self._kind}")

    def __len__(self):
        raise Unsupported(f"the length of {self._kind}")

    def __deepcopy__(self, memo):
        return self


class Method:
    def __init__(self, obj, name):
        self.__dict__.update(obj=obj, name=name, children={})

    def __call__(self, *a, **k):
        o = self.obj
        r = Obj(o._rec, f"{o._kind}.{self.name}", a, k)
        o.calls.append((self.name, a, k, r))
        o._rec.log.append((o, self.name, a, k))
        h = o._rec.returns.get(self.name)
        if h is not None:
            return h(o, *a, **k)
        return r

    def _no(self, *a):
        raise Unsupported(f"{self.obj._kind}.{self.name} used as a value")

    __iter__ = __getitem__ = __len__ = __bool__ = __float__ = __int__ = __contains__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = _no

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        c = self.children.get(name)
        if c is None:
            c = self.children[name] = Method(Obj(self.obj._rec, f"{self.obj._kind}.{self.name}"), name)
        return c


class Grid(Obj):
    def __init__(self, rec, args, kw):
        super().__init__(rec, "ImageGrid", args, kw)
        nr = kw.get("nrows_ncols", (1, 1))
        self.__dict__["axes"] = [Obj(rec, f"axes{i}") for i in range(nr[0] * nr[1])]

    def __getitem__(self, i):
        return self.axes[i]

    def __iter__(self):
        return iter(self.axes)

    def __len__(self):
        return len(self.axes)


class Recorder:
    def __init__(self):
        self.log = []
        self.returns = {"subplots": self._subplots, "get_figure": lambda o, *a, **k: Obj(self, "Figure")}

    def _subplots(self, o, nrows=1, ncols=1, **k):
        fig = Obj(self, "Figure")
        n = nrows * ncols
        axs = [Obj(self, f"axes{i}") for i in range(n)]
        return fig, (axs[0] if n == 1 else axs)

    def modules(self):
        mk = lambda name: Obj(self, name)
        rec = self

        class Cls:
            def __init__(self, kind):
                self.kind = kind

            def __call__(self, *a, **k):
                r = Obj(rec, self.kind, a, k)
                rec.log.append((None, self.kind, a, k))
                return r

        class Ns:
            def __init__(self, **k):
                self.__dict__.update(k)

            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                return Cls(name)
        self.plt = mk("pyplot")
        colors = Ns(PowerNorm=Cls("PowerNorm"), LogNorm=Cls("LogNorm"))
        patches = Ns(Circle=Cls("Circle"), Wedge=Cls("Wedge"))
        figure = Ns(Figure=type("Figure", (), {}))

        def ImageGrid(*a, **k):
            g = Grid(rec, a, k)
            rec.log.append((None, "ImageGrid", a, k))
            rec.grid = g
            return g
        axg = Ns(ImageGrid=ImageGrid)
        root = Ns(colors=colors, patches=patches, figure=figure, pyplot=self.plt)
        return {"matplotlib": root, "matplotlib.pyplot": self.plt, "matplotlib.colors": colors,
                "matplotlib.patches": patches, "matplotlib.figure": figure, "matplotlib.font_manager": Ns(),
                "matplotlib.patheffects": Ns(), "mpl_toolkits": Ns(axes_grid1=axg), "mpl_toolkits.axes_grid1": axg,
                "mpl_toolkits.axes_grid1.anchored_artists": Ns(AnchoredSizeBar=Cls("AnchoredSizeBar"))}
