'''A stand-in for pyplot: drawing does nothing, saving writes a tiny file through the simulated storage.

Contours (from which the code extracts Fermi surfaces) stay real.
'''
import os
import sys
import types

import numpy as np


class Dummy:
    def __init__(self, *a, **k): pass
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        if n == 'savefig': return _savefig
        return Dummy()
    def __call__(self, *a, **k): return Dummy()
    def __getitem__(self, i): return Dummy()
    def __setitem__(self, i, v): pass
    def __iter__(self): return iter([Dummy()])
    def __len__(self): return 1
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __array__(self, *a, **k): return np.zeros(3)
    def __bool__(self): return True
    def __float__(self): return 1.0
    def _bin(self, *a): return Dummy()
    __add__ = __sub__ = __mul__ = __truediv__ = __radd__ = __rmul__ = __rsub__ = __rtruediv__ = __neg__ = _bin


def _savefig(fname, *a, **k):
    if isinstance(fname, (str, os.PathLike)):
        fname = os.fspath(fname)
        if not os.path.splitext(fname)[1]: fname += '.png'
        with open(fname, 'wb') as f:
            f.write(b'\x89PNG stub')


def _subplots(nrows=1, ncols=1, *a, squeeze=True, **k):
    ax = np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols): ax[i, j] = Dummy()
    if squeeze:
        if nrows == ncols == 1: return Dummy(), ax[0, 0]
        ax = ax.reshape(-1) if 1 in (nrows, ncols) else ax
    return Dummy(), ax


def install():
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as real
    fake = types.ModuleType('matplotlib.pyplot')

    def ga(name):
        if name.startswith('__'): raise AttributeError(name)
        return Dummy()
    fake.__getattr__ = ga
    fake.savefig = _savefig
    fake.subplots = _subplots

    def contour(*a, **k):
        fig = real.figure()
        try:
            return real.contour(*a, **k)
        finally:
            real.close(fig)
    fake.contour = contour
    fake.rcParams = real.rcParams
    fake.rc = lambda *a, **k: None
    fake.get_cmap = real.get_cmap
    fake.Axes = real.Axes
    fake.Figure = real.Figure
    fake.cm = real.cm
    sys.modules['matplotlib.pyplot'] = fake
    matplotlib.pyplot = fake
    import mpl_toolkits.axes_grid1 as ag
    import mpl_toolkits.axes_grid1.inset_locator as il
    ag.make_axes_locatable = lambda ax: Dummy()
    il.inset_axes = lambda *a, **k: Dummy()
