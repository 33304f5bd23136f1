'''Shared pieces of the checks.'''
import os
import random

import numpy as np

from sim import core, dgarun, fs, mpi
from sim.driver import Check, Res  # noqa: F401

REAL_DGA = ('the whole dga package from /repo/src (dga_main and everything it imports), numpy, scipy, h5py and its HDF5 '
            'library, ruamel.yaml, logging, matplotlib contouring')
STUB = ('MPI (SimComm: mpi4py semantics over the simulated scheduler), clocks (datetime/time), directory and file calls '
        'pass through the simulated disk in a scratch directory, figures are written as stub files')

SMALL_BOXES = ((3, 3, 1), (4, 4, 2), (2, 4, 1), (4, 3, 2), (3, 4, 1))


def gen_dga(rng, ranks=(2, 3, 4, 5, 6), **kw):
    '''A small but complete DGA problem.'''
    nw, nv, ns = rng.choice(SMALL_BOXES)
    c = dict(nk=[4, 4, 1], hr=[1.0, round(rng.uniform(-0.4, 0.4), 3), round(rng.uniform(-0.2, 0.2), 3)],
             beta=rng.choice([2.0, 3.0, 4.0]), u=rng.choice([1.0, 1.5, 2.0]), n=rng.choice([0.8, 0.9, 0.95, 1.0, 1.1]),
             niw_in=nw + rng.choice([0, 1]), niv_in=nv + ns + rng.choice([0, 1]), seed=rng.randrange(10 ** 6),
             box=dict(niw_core=nw, niv_core=nv, niv_shell=ns), ranks=rng.choice(list(ranks)),
             policy=rng.choice(['uniform', 'sticky', 'pct', 'starve', 'rr']), np_seed=rng.randrange(10 ** 6))
    if rng.random() < .7: c['dmu'], c['sig_shift'] = round(rng.uniform(-.25, .25), 3), rng.choice([.3, .1, .5, -.2])
    c['opts'] = dgarun.base_opts(**kw)
    if c['seed'] % 5 < 2:  # parameters with all digits
        x = random.Random(c['seed'])
        c.update(beta=x.uniform(2, 4.2), u=x.uniform(.9, 2), n=x.uniform(.8, 1.12), hr=[x.uniform(.85, 1.15), x.uniform(-.35, .35), x.uniform(-.18, .18)])
    if c['seed'] % 7 < 3:
        c['g2_asym'] = .1
        if c['seed'] % 7 == 0: c['opts']['sym_v_vp'] = False
    if c['seed'] % 11 < 2: c['box']['niv_shell'] = 0
    if c['seed'] % 6 == 0:
        c.update(inf_box=['both', 'w', 'both', 'v'][c['seed'] % 4], niw_in=nw, niv_in=nv)
        if c['seed'] % 5 < 3: c['box']['niv_shell'] = 4 + c['seed'] % 5
    return c


MAX_RANKS = {'two_dimensional_square': 6, 'quasi_one_dimensional_square': 9, 'none': 16, 'simultaneous_x_y_inversion': 10}


def irr_map(nk, sym):
    '''For every momentum the smallest index among those the symmetries, applied one after another, identify with it.'''
    m = np.arange(np.prod(nk)).reshape(nk)
    for s in SYMS.get(sym, ()) if isinstance(sym, str) else sym:
        o = m.copy()
        for x, y, z in np.ndindex(*nk):
            if s == 'x-inv' and x > nk[0] // 2: m[x, y, z] = o[nk[0] - x, y, z]
            if s == 'y-inv' and y > nk[1] // 2: m[x, y, z] = o[x, nk[1] - y, z]
            if s == 'z-inv' and z > nk[2] // 2: m[x, y, z] = o[x, y, nk[2] - z]
            if s == 'x-y-sym': m[x, y, z] = min(o[x, y, z], o[y, x, z])
            if s == 'x-y-inv' and x > nk[0] // 2 and y > 0: m[x, y, z] = o[nk[0] - x, nk[1] - y, z]
    return m


def n_irr(nk, sym):
    '''The number of irreducible momenta as the program defines them.'''
    return len(np.unique(irr_map(nk, sym)))


SYMS = {'two_dimensional_square': ('x-inv', 'y-inv', 'x-y-sym'), 'quasi_one_dimensional_square': ('x-inv', 'y-inv'), 'simultaneous_x_y_inversion': ('x-y-inv',)}


def orbit(m, nk, sym):
    '''The momenta equivalent to m.'''
    orb, new = {tuple(m)}, [tuple(m)]
    while new:
        a, b, z = new.pop()
        for s in SYMS.get(sym, ()) if isinstance(sym, str) else sym:
            p = {'x-inv': (-a, b, z), 'y-inv': (a, -b, z), 'z-inv': (a, b, -z), 'x-y-sym': (b, a, z), 'x-y-inv': (-a, -b, z)}[s]
            p = tuple(i % n for i, n in zip(p, nk))
            if p not in orb:
                orb.add(p)
                new.append(p)
    return orb


def list_symmetries(rng, c):
    '''The lattice symmetries as a list of single ones, any that the dispersion has.'''
    have = {'two_dimensional_square': ['x-inv', 'y-inv', 'z-inv', 'x-y-sym', 'x-y-inv'], 'quasi_one_dimensional_square': ['x-inv', 'y-inv', 'z-inv', 'x-y-inv'],
            'simultaneous_x_y_inversion': ['x-y-inv', 'z-inv'], 'none': ['x-y-inv', 'z-inv']}[c['symmetries'] if c.get('hop') else 'two_dimensional_square']
    if c['nk'][0] != c['nk'][1] and 'x-y-sym' in have: have.remove('x-y-sym')
    c['symmetries'] = rng.sample(have, rng.randrange(len(have) + 1))
    c['ranks'] = min(c['ranks'], n_irr(c['nk'], c['symmetries']))


def vary_lattice(rng, c, kz=True):
    '''Anisotropic lattices: hoppings of lower symmetry from a wannier90 file, non-square and three-dimensional grids.'''
    sym = rng.choice(['quasi_one_dimensional_square', 'none', 'simultaneous_x_y_inversion', 'two_dimensional_square'])
    f = lambda a, b: round(rng.uniform(a, b), 3)
    tz = f(-.4, .4)
    pairs = [((0, 0, 1), tz)] if kz and rng.random() < .6 else []
    if sym == 'two_dimensional_square':
        t, tp = 1., f(-.4, .4)
        pairs += [((1, 0, 0), t), ((0, 1, 0), t), ((1, 1, 0), tp), ((1, -1, 0), tp)]
        nk = [4, 4, 2] if pairs[0][0] == (0, 0, 1) else [4, 4, 1]
    else:
        a, b = f(-.4, .4), f(-.4, .4)
        pairs += [((1, 0, 0), 1.), ((0, 1, 0), f(.1, .9)), ((2, 0, 0), f(-.2, .2)), ((1, 1, 0), a),
                  ((1, -1, 0), a if sym == 'quasi_one_dimensional_square' else b)]
        nk = rng.choice([[4, 5, 1], [5, 4, 1], [4, 6, 1], [6, 4, 1], [4, 4, 1], [4, 4, 1]])  # the plots need 2 points per quadrant
        if pairs[0][0] == (0, 0, 1) and nk[0] * nk[1] == 16: nk = nk[:2] + [rng.choice([2, 3])]
    if sym == 'two_dimensional_square' and rng.random() < .4:  # the built-in model, without dispersion along z
        c.update(symmetries=sym, nk=[4, 4, rng.choice([2, 3])])
        c['ranks'] = min(c['ranks'], n_irr(c['nk'], sym))
        return
    hop = []
    for (x, y, z), t in pairs: hop += [[x, y, z, -t], [-x, -y, -z, -t]]
    c.update(symmetries=sym, nk=nk, hop=hop, hr_file='hr.dat')
    c['ranks'] = min(c['ranks'], n_irr(nk, sym))


def rand_opts(rng):
    o = dict(pairing=rng.random() < .75, optics_b=rng.random() < .6, save_fq=rng.random() < .6,
             save_vrg=rng.random() < .6, poly=rng.random() < .5, lambda_corr=rng.choice(['spch', 'spch', 'sp', 'none']),
             keep_rank=rng.random() < .3, keep_pairing=rng.random() < .7, keep_fq_optics=rng.random() < .7,
             verbosity=rng.choice([0, 1, 2]), sym_v_vp=rng.random() < .8)
    return o


def job(case, choices, root, size, fn, argv=None, res=None, crash=None, faults=None):
    '''Run fn(comm) on size simulated ranks; the return values are in world.procs[r].result.'''
    c = dict(case)
    if faults is not None: c['faults'] = faults
    w = dgarun.make_world(c, choices, root)
    mpi.spawn_job(w, size, fn, argv=argv, np_seed=case.get('np_seed', 11))
    dgarun.run_world(w, crash, root)
    if res is not None:
        res.add_world(w)
        res.choices = w.ch.rec
    return w


def exc_text(w):
    return '; '.join(f'rank {p.rank}: {type(p.exc).__name__}: {p.exc}' for p in w.procs if p.exc is not None)


def site(tb):
    '''A stable name for where an exception came from: the last frame in the repository.'''
    import re
    fr = re.findall(r'File "[^"]*/src/([^"]+)", line \d+, in (\S+)', tb or '')
    return f'{os.path.basename(fr[-1][0])}:{fr[-1][1]}' if fr else '?'


def shrink_common(case):
    '''Simpler variants of a DGA case.'''
    out = []

    def v(**kw):
        c = dict(case)
        c.update(kw)
        out.append(c)
    if case.get('ranks', 1) > 2:
        v(ranks=2)
        v(ranks=case['ranks'] - 1)
    if case.get('policy') != 'seq': v(policy='seq')
    if case.get('faults') and len(case['faults']) > 1:
        for i in range(len(case['faults'])): v(faults=case['faults'][:i] + case['faults'][i + 1:])
    o = case.get('opts')
    if o:
        for k in ('pairing', 'optics_b', 'optics_v', 'save_fq', 'save_vrg', 'poly', 'keep_rank'):
            if o.get(k):
                oo = dict(o)
                oo[k] = False
                if k == 'pairing': oo['eliash'] = False
                v(opts=oo)
    return out
