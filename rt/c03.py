import numpy as np
from .core import *
from pyotf import utils


def cases(rng, tier):
    shapes = [[1], [2], [3], [7], [8], [3, 4], [5, 5], [1, 6], [2, 3, 4], [5, 4, 3], [3, 3, 3], [2, 1, 3, 5]]
    for i in range(60 if tier == "quick" else 500):
        s = shapes[int(rng.integers(len(shapes)))] if i >= len(shapes) else shapes[i]
        ax = None
        if rng.random() < 0.6:
            k = int(rng.integers(1, len(s) + 1))
            ax = [int(a) for a in rng.permutation(len(s))[:k]]
            ax = [a - len(s) if rng.random() < 0.3 else a for a in ax]
            if k == 1 and False:
                ax = ax[0]
        yield dict(shape=s, axes=ax, dtype=["float", "complex", "int", "float32"][int(rng.integers(4))],
                   seed=int(rng.integers(1 << 30)))


def check(c):
    rng = np.random.default_rng(c["seed"])
    x = rng.normal(size=c["shape"])
    if c["dtype"] == "complex":
        x = x + 1j * rng.normal(size=c["shape"])
    elif c["dtype"] == "int":
        x = rng.integers(-9, 9, c["shape"])
    elif c["dtype"] == "float32":
        x = x.astype("float32")
    ax = None if c["axes"] is None else tuple(c["axes"])
    axs = range(x.ndim) if ax is None else ax
    what = f"shape {x.shape} axes {ax}"
    tol = 1e-5 if c["dtype"] == "float32" else 1e-9
    fr = Frozen("easy_fft", x)
    X = utils.easy_fft(x, axes=ax) if ax is not None else utils.easy_fft(x)
    fr.check()
    s = max(1e-9, np.abs(x).sum())
    close(X, cdft(x, axs), "easy_fft " + what, tol, s)
    fr = Frozen("easy_ifft", x)
    Y = utils.easy_ifft(x, ax)
    fr.check()
    close(Y, icdft(x, axs), "easy_ifft " + what, tol, s)
    close(utils.easy_ifft(X, axes=ax), x, "easy_ifft(easy_fft) " + what, tol, s)
    close(utils.easy_fft(Y, axes=ax), x, "easy_fft(easy_ifft) " + what, tol, s)
