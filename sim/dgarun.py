'''Run the real dga_main (and dga_max_ent) under the simulator and collect everything it leaves behind.'''
import os
import shutil
import sys

import numpy as np

from . import clock, core, env, fs, inputs, mpi

_devnull = None


class Outcome:
    pass


def base_opts(**kw):
    o = dict(pairing=True, eliash=True, optics_b=True, optics_v=True, save_fq=True, save_vrg=True, poly=True,
             lambda_corr='spch', keep_rank=False, keep_pairing=True, keep_fq_optics=True, verbosity=1, sym_v_vp=True)
    o.update(kw)
    return o


DEFAULTS = {'box_sizes': dict(niw_core=-1, niv_core=-1, niv_shell=0),
            'dmft_input': dict(type='w2dyn', input_path='./', fname_1p='1p-data.hdf5', fname_2p='g4iw_sym.hdf5', do_sym_v_vp=True),
            'dga': dict(lambda_corr='spch'), 'output': dict(save_vrg=False, save_fq=False, keep_pairing_vertex=True, keep_fq_optics=False, verbosity=1),
            'debug': dict(keep_rank_files=False), 'poly_fitting': dict(n_fit=4, o_fit=3),
            'pairing': dict(do_pairing_vertex=False, do_eliash=False, n_eig=2, k_sym='random', sym_sing=True, sym_trip=True, eps=1e-6, max_count=10000),
            'optics': dict(do_bubble=False, do_vertex=False, der_a=0, der_b=0, niw_cond=-1, niw_vert=-1, niv_bubble=-1)}


def omit_defaults(d, seed):
    '''A user leaves out entries which have the documented default.'''
    import random
    rng = random.Random(seed)
    if d['lattice'].get('nq') == d['lattice']['nk'] and rng.random() < .6: del d['lattice']['nq']
    for sec, dv in DEFAULTS.items():
        for k, v in dv.items():
            if sec in d and k in d[sec] and d[sec][k] == v and rng.random() < .6: del d[sec][k]
        if sec in d and not d[sec] and sec != 'poly_fitting' and sec != 'optics' and rng.random() < .7: del d[sec]
    return d


def config_text(case, path):
    '''The user's yaml file for a case.  Optional entries are absent unless the case sets them.'''
    from ruamel.yaml import YAML
    import io
    o = case['opts']
    b = case['box']
    if case.get('cfg_rel'): path = './'
    d = {'box_sizes': {'niw_core': b['niw_core'], 'niv_core': b['niv_core'], 'niv_shell': b['niv_shell']},
         'lattice': {'symmetries': case.get('symmetries', 'two_dimensional_square'), 'type': 't_tp_tpp',
                     'hr_input': list(case['hr']), 'nk': list(case['nk']), 'nq': list(case.get('nq', case['nk']))},
         'dmft_input': {'type': case.get('in_type', 'default'), 'input_path': path,
                        'fname_1p': '1p-data.npy' if case.get('in_type', 'default') == 'default' else '1p-data.hdf5',
                        'fname_2p': '1p-data.npy' if case.get('in_type', 'default') == 'default' else 'g4iw_sym.hdf5',
                        'do_sym_v_vp': o['sym_v_vp']},
         'dga': {'lambda_corr': o['lambda_corr']},
         'output': {'save_vrg': o['save_vrg'], 'save_fq': o['save_fq'], 'keep_pairing_vertex': o['keep_pairing'],
                    'keep_fq_optics': o['keep_fq_optics'], 'verbosity': o['verbosity']},
         'debug': {'keep_rank_files': o['keep_rank']}}
    if case.get('hr_file'): d['lattice'].update(type='from_wannier90', hr_input=path + case['hr_file'])
    if 'niv_asympt' in b: d['box_sizes']['niv_asympt'] = b['niv_asympt']
    if case.get('inf_box'):  # the documented default, all frequencies of the input
        if 'v' not in case['inf_box'] and b['niw_core'] == case['niw_in']: d['box_sizes']['niw_core'] = -1
        if 'w' not in case['inf_box'] and b['niv_core'] == case['niv_in']: d['box_sizes']['niv_core'] = -1
    if o['pairing'] or o['eliash']:
        d['pairing'] = {'do_pairing_vertex': o['pairing'], 'do_eliash': o['eliash'], 'n_eig': o.get('n_eig', 1),
                        'k_sym': o.get('k_sym', 'random'), 'eps': o.get('eps', 1e-6),
                        'max_count': o.get('max_count', 2000)}
        for k in ('sym_sing', 'sym_trip'):
            if k in o: d['pairing'][k] = o[k]
    if o['poly']: d['poly_fitting'] = {'n_fit': 4, 'o_fit': 3}
    if o['optics_b'] or o['optics_v'] or o.get('optics_section'):
        d['optics'] = {'do_bubble': o['optics_b'], 'do_vertex': o['optics_v']}
        for k in ('der_a', 'der_b', 'niw_cond', 'niw_vert', 'niv_bubble'):
            if k in o: d['optics'][k] = o[k]
        if o.get('optics_me'): d['optics']['max_ent'] = dict(o['optics_me'])
    if case.get('max_ent'): d['max_ent'] = case['max_ent']
    if case.get('extra_cfg'):
        for k, v in case['extra_cfg'].items():
            d.setdefault(k, {}).update(v)
    if case.get('cfg_omit'): omit_defaults(d, case['cfg_omit'])
    s = io.StringIO()
    YAML().dump(d, s)
    return s.getvalue()


def prepare(case, root, cfg_name='dga_config.yaml', sub=''):
    path = os.path.join(root, sub) if sub else root
    os.makedirs(path, exist_ok=True)
    path = path.rstrip('/') + '/'
    dd = inputs.dmft_input(case)
    if case.get('in_type', 'default') == 'default':
        inputs.write_default(path, dd)
    elif case['in_type'] == 'w2dyn':
        inputs.write_w2dyn(path, dd)
    else:
        inputs.write_ed(path, dd)
    if case.get('hr_file'): inputs.write_hr(path + case['hr_file'], inputs.hops_of(case), case['seed'])
    for fn, frac in (case.get('truncate') or {}).items():
        size = os.path.getsize(path + fn)
        os.truncate(path + fn, min(int(frac * size), size - 20))
    if case.get('drop'):
        import h5py
        with h5py.File(path + case['drop'][0], 'r+') as f:
            names = []
            f.visititems(lambda n, o: names.append(n) if isinstance(o, h5py.Dataset) else None)
            del f[sorted(names)[int(case['drop'][1] * len(names))]]
    with open(path + cfg_name, 'w') as f:
        f.write(config_text(case, path))
    return dd, path


class _Sink:
    def write(self, s):
        p = core.current()
        if p is not None and len(p.out) < 400: p.out.append(s)
        elif p is None: sys.__stdout__.write(s)
        return len(s)

    def flush(self): pass
    def isatty(self): return False


def make_world(case, choices, root):
    ck = case.get('clock', {})
    clk = clock.Clock(per_step=ck.get('per_step', 0.01), jumps=ck.get('jumps', ()))
    w = core.World(seed=case.get('sched_seed', 0), choices=choices, policy=case.get('policy'), clock=clk,
                   max_steps=case.get('max_steps', 400000))
    w.on_step.append(clk.tick)
    w.fs = fs.SimFS(root, case.get('faults', ()), log_ops=case.get('log_ops', False))
    if case.get('raise'):  # dict(rank, nth): an allocation fails on that rank just before its nth operation
        left = [case['raise']['nth']]

        def oom(world, p, label):
            if p.rank != case['raise']['rank'] or left[0] < 0 or 'abort' in label.lower(): return
            left[0] -= 1
            if left[0] < 0:
                world.fault('out-of-memory')
                w.fs.injected.append((p.job, p.rank, 'memory', label, 'MemoryError'))
                raise MemoryError(f'simulated: cannot allocate at {label}')
        w.on_step.append(oom)
    return w


def run_world(world, crash=None, root=None):
    '''crash: dict(step=k, rank=r|None (None: the whole job at once), torn=bool).  Returns the tree to restore.'''
    snap = {}
    if crash:
        world.fs.crash = {'torn': crash.get('torn'), 'armed': False}

        def on_step(w, p, label):
            if crash.get('pattern'):
                import re
                if crash.get('seen', 0) < crash.get('nth', 0) or not re.search(crash['pattern'], label):
                    if re.search(crash['pattern'], label): crash['seen'] = crash.get('seen', 0) + 1
                    return
                hit = True
            else:
                hit = w.steps >= crash['step']
            if hit and not any(q.dead or q.dying for q in w.procs):
                victim = p if crash.get('rank') is None else None
                for q in w.procs:
                    if crash.get('rank') is not None and q.rank == crash['rank']: victim = q
                if victim is None or victim.done: return
                if victim is not p and crash.get('rank') is not None:
                    return
                p.dead = True
                w.fault('crash-rank' if crash.get('rank') is not None else 'crash-job')
                w.grace = 1 if crash.get('rank') is None else crash.get('grace') or 1 + w.ch.choose(25)
                if crash.get('rank') is None: w.grace = 0
        world.on_step.append(on_step)
    so, se = sys.stdout, sys.stderr
    sys.stdout = _Sink()
    sys.stderr = _Sink()

    def freeze(w):
        if root is not None and any(q.dead for q in w.procs):
            snap['tree'] = fs.snapshot(root)
    here = os.getcwd()
    os.chdir(world.fs.root)  # relative paths of the job end up where they are seen
    try:
        world.run(on_freeze=freeze)
    finally:
        os.chdir(here)
        sys.stdout, sys.stderr = so, se
    fs.reset_h5()
    if 'tree' in snap:
        fs.restore(root, snap['tree'])
    for p in world.procs:
        if isinstance(p.exc, core.HarnessError) or (p.exc_tb and 'HarnessError' in p.exc_tb):
            raise core.HarnessError(p.exc_tb)
    return world


def outcome(world, job=None):
    ps = [p for p in world.procs if job is None or p.job == job]
    o = Outcome()
    o.crashed = any(p.dead and not p.aborted for p in ps)
    o.orphaned = world.orphaned
    o.failed = [p for p in ps if p.exc is not None]
    o.finished = [p for p in ps if p.done and p.exc is None and not p.kill]
    o.ok = len(o.finished) == len(ps) and not o.failed and not o.crashed
    o.errors = [f'rank {p.rank}: {type(p.exc).__name__}: {p.exc}' for p in o.failed]
    o.tb = [p.exc_tb for p in o.failed]
    o.world = world
    return o


def run_dga(case, root, choices=None, crash=None, path=None, ranks=None, argv_cfg=None, prep=True):
    if prep:
        _, path = prepare(case, root)
    from dga import dga_main
    w = make_world(case, choices, root)
    argv = ['dga_main', '-p', './' if case.get('cfg_rel') else path] + (['-c', argv_cfg] if argv_cfg else [])
    mpi.spawn_job(w, ranks or case['ranks'], lambda comm: dga_main.main(), argv=argv, np_seed=case.get('np_seed', 11))
    run_world(w, crash, root)
    o = outcome(w)
    o.path = path
    return o


def find_output_dirs(path):
    return sorted(d for d in os.listdir(path) if d.startswith('LDGA') and os.path.isdir(os.path.join(path, d)))


def load_file(fp):
    fn = os.path.basename(fp)
    if fn.endswith('.npy'):
        a = np.load(fp, allow_pickle=True)
        if a.dtype == object:
            a = a.item() if a.ndim == 0 else list(a)
        return a
    if fn.endswith(('.txt', '.dat')):
        with open(fp) as f:
            return f.read()
    if fn.endswith('.hdf5'):
        import h5py
        out = {}

        def visit(n, ob):
            if isinstance(ob, h5py.Dataset): out[n] = ob[()]
        with h5py.File(fp, 'r') as f:
            f.visititems(visit)
        return out
    with open(fp, 'rb') as f:
        return f.read()


SKIP_EXT = ('.log', '.png', '.pdf')


def collect(outdir, skip=SKIP_EXT):
    '''{relative name: content} of every data file; unreadable files map to an Exception.'''
    out = {}
    for d, _, files in os.walk(outdir):
        for f in files:
            if f.endswith(skip): continue
            fp = os.path.join(d, f)
            rel = os.path.relpath(fp, outdir)
            try:
                out[rel] = load_file(fp)
            except Exception as e:  # noqa
                out[rel] = e
    return out


def flat(name, val):
    '''-> list of (key, ndarray | str | bytes | Exception)'''
    if isinstance(val, dict):
        r = []
        for k in sorted(val, key=str): r += flat(f'{name}:{k}', val[k])
        return r
    if isinstance(val, (list, tuple)):
        try:
            return [(name, np.asarray(val, dtype=complex))]
        except Exception:
            r = []
            for i, v in enumerate(val): r += flat(f'{name}[{i}]', v)
            return r
    if isinstance(val, str):
        try:
            nums = [float(x) for ln in val.splitlines() if not ln.startswith('#') for x in ln.replace(',', ' ').split()]
            return [(name, np.array(nums))]
        except ValueError:
            return [(name, val)]
    if val is None or isinstance(val, (int, float, complex, bool, np.generic)):
        return [(name, np.asarray(np.nan if val is None else val))]
    return [(name, val)]


def compare(a, b, rtol=1e-6, atol_txt=2e-6, ignore=(), loose=()):
    '''Differences between two collected outputs: list of (file/key, message).  loose: (substring, rtol) pairs.'''
    diffs = []
    ka = {k for k in a if not any(s in k for s in ignore)}
    kb = {k for k in b if not any(s in k for s in ignore)}
    for k in sorted(ka - kb): diffs.append((k, 'missing in the second run'))
    for k in sorted(kb - ka): diffs.append((k, 'missing in the first run'))
    for k in sorted(ka & kb):
        fa, fb = flat(k, a[k]), flat(k, b[k])
        if [n for n, _ in fa] != [n for n, _ in fb]:
            diffs.append((k, f'entries differ: {sorted(set(n for n, _ in fa) ^ set(n for n, _ in fb))[:4]}'))
            continue
        for (n, x), (_, y) in zip(fa, fb):
            tol = rtol
            for s, t in loose:
                if s in n: tol = t
            m = same(x, y, tol, atol_txt if k.endswith('.txt') else 0.0)
            if m: diffs.append((n, m))
    return diffs


def same(x, y, rtol, atol=0.0):
    if isinstance(x, Exception) or isinstance(y, Exception):
        return None if (isinstance(x, Exception) and isinstance(y, Exception)) else f'unreadable: {x!r:.80} / {y!r:.80}'
    if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)):
        return None if x == y else 'content differs'
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape: return f'shape {x.shape} vs {y.shape}'
    if x.dtype.kind in 'SUO' or y.dtype.kind in 'SUO':
        return None if np.array_equal(x, y) else 'content differs'
    if x.size == 0: return None
    x, y = x.astype(complex), y.astype(complex)
    nx, ny = ~np.isfinite(x), ~np.isfinite(y)
    if not np.array_equal(nx, ny): return 'NaN/inf pattern differs'
    x, y = np.where(nx, 0, x), np.where(ny, 0, y)
    scale = max(np.max(np.abs(x)), np.max(np.abs(y)))
    d = np.max(np.abs(x - y))
    if d > rtol * scale + atol:
        return f'max difference {d:.3e} at scale {scale:.3e}'
    return None
