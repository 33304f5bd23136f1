'''Install every seam, then import the code under test from /repo/src (the working tree).'''
import gc
import os
import sys
import tempfile
import warnings

for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ.setdefault(v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['HDF5_USE_FILE_LOCKING'] = 'FALSE'
os.environ.setdefault('MPLCONFIGDIR', os.path.join(tempfile.gettempdir(), f'mplcfg-{os.getuid()}'))
sys.dont_write_bytecode = True
REPO = os.environ.get('DGA_REPO', '/repo')

_done = False


def setup():
    global _done
    if _done: return
    _done = True
    src = os.path.join(REPO, 'src')
    if src not in sys.path: sys.path.insert(0, src)
    if REPO not in sys.path: sys.path.insert(1, REPO)
    warnings.filterwarnings('ignore')
    from . import mpi, fs, clock, plots
    mpi.install()
    plots.install()
    import scipy.optimize, scipy.interpolate, matplotlib.dates, ruamel.yaml, h5py, numpy, logging  # noqa
    import ana_cont.continuation, pandas  # noqa
    clock.install()
    fs.install()
    import dga
    if os.path.realpath(os.path.dirname(dga.__file__)) != os.path.realpath(os.path.join(src, 'dga')):
        raise RuntimeError(f'dga imported from {dga.__file__}')
    import glob, importlib
    mods = [dga]
    for f in sorted(glob.glob(os.path.join(src, 'dga', '*.py'))):
        n = os.path.basename(f)[:-3]
        if n == '__init__': continue
        mods.append(importlib.import_module('dga.' + n))
    clock.patch_modules(mods)
    real_collect = gc.collect
    from . import core
    gc.collect = lambda *a: 0 if core.current() is not None else real_collect(*a)
    gc.disable()
    import numpy as np
    np.seterr(all='ignore')
    _poison(np)


def _poison(np):
    '''Uninitialised memory reads as a fixed pattern inside the simulation, so that runs repeat exactly.'''
    from . import core

    def fill(a):
        if core.current() is not None:
            if a.dtype.kind in 'fc': a.fill(1.2345e77 if a.dtype.itemsize >= 8 and a.dtype != np.complex64 else 1.2345e30)
            elif a.dtype.kind in 'iu': a.fill(77)
        return a
    e, el = np.empty, np.empty_like
    np.empty = lambda *a, **k: fill(e(*a, **k))
    np.empty_like = lambda *a, **k: fill(el(*a, **k))


def scratch(prefix='dgasim-'):
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix=prefix, dir=base)
