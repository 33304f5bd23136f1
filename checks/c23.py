'''C23: the symmetrisation tool on several atoms and orbitals - complete averages or nothing, through errors, crashes, repeats and races.'''
import builtins
import itertools
import runpy

from .util import *  # noqa

FAULTS = ('h5open_r', 'h5read', 'h5open_w', 'h5write', 'h5close', 'rename', 'open_r', 'open_w', 'read', 'write')
UU, UD, DU, DD, X1, X2 = (0, 0, 0, 0), (0, 0, 1, 1), (1, 1, 0, 0), (1, 1, 1, 1), (0, 1, 1, 0), (1, 0, 0, 1)
DENS = {UU: 1, UD: 1, DU: 1, DD: 1}
MAGN = {UU: 1, UD: -1, DU: -1, DD: 1, X1: 1, X2: 1}


def compound(nb, bands, spins):
    i = 0
    for b, s in zip(bands, spins): i = i * 2 * nb + 2 * b + s
    return i + 1


def band_index(nb, bands):
    i = 0
    for b in bands: i = i * nb + b
    return i + 1


def kanamori(nb):
    return sorted({x for i in range(nb) for j in range(nb) for x in ((i, i, j, j), (i, j, i, j), (i, j, j, i))})


class C23(Check):
    id = 'C23'
    quick_s = 25
    thorough_s = 300
    batch = 4
    rule = ('A case is solver output of one or two atoms with one to three orbitals, a target (one-particle, one, two or three frequencies), orbital '
            'symmetries, a way to start the tool (questions, command line, function) and a history of attempts with storage errors, crashes or a '
            'second process; non-trivial when there is more than one orbital or atom, or an attempt was disturbed.')
    assumptions = ['a rename is atomic', 'HDF5 refuses a second writer of an open file (library lock)',
                   'after an error of the disk an attempt may leave its own differently named file behind']
    real_components = 'dga.symmetrize with its questions and its command line, h5py with its HDF5 library'
    stub_components = 'the solver output is synthetic, answers to questions come from the case; process ids, schedule, file calls, crashes come from the simulator'

    def gen(self, rng, i, tier):
        target = rng.choice(['3freq', '3freq', '2freq', '1freq_b', '1freq_f', '1freq_f'])
        start = rng.choice(['ask', 'ask', 'api'] + ['argv'] * (target == '3freq'))
        nat = 1 if start == 'argv' else rng.choice([1, 1, 2])
        nb = [1 if start == 'argv' else rng.choice([1, 2, 2, 3]) for _ in range(nat)]
        if target == '3freq' and max(nb) == 3 and nat == 2: nb = [2, 1]
        lab = [[rng.randrange(n) for _ in range(n)] for n in nb]  # bands with the same label are equivalent
        sym = [[[j + 1 for j in range(len(x)) if x[j] == x[b]] for b in range(len(x))] for x in lab]
        c = dict(target=target, start=start, nb=nb, sym=sym, nw=rng.choice([0, 1, 2]), nv=rng.choice([1, 2, 3]), seed=rng.randrange(10 ** 6), max_steps=400000,
                 worm='worm-last' if start == 'ask' else rng.choice(['worm-last', 'worm-001']), nan=target == '3freq' and rng.random() < .2,
                 policy=rng.choice(['uniform', 'sticky', 'pct', 'starve', 'rr']), existing=rng.random() < .12, nk=[4, 4, 1])
        c['runs'] = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            a = dict(n=rng.choice([1, 1, 2]), crash=None, faults=[])
            hi = 1.6 if target == '1freq_f' else 3.
            if rng.random() < .5:
                a['crash'] = dict(step=int(10 ** rng.uniform(0, hi)), rank=None, torn=rng.random() < .5)
                if a['n'] == 2 and rng.random() < .5: a['crash'].update(rank=0, grace=10 ** 6)
            if rng.random() < .6 or not a['crash']:
                a['faults'] = [dict(op=rng.choice(FAULTS if target == '1freq_f' else FAULTS[:6]), path='*', rank=rng.choice([None, 0]),
                                    nth=int(10 ** rng.uniform(0, hi - .3)) - 1 if rng.random() < .7 else 0, kind=rng.choice(['EIO', 'ENOSPC', 'EIO']), sticky=rng.random() < .3)]
            c['runs'].append(a)
        c['last'] = rng.choice([1, 1, 2])
        return c

    def data(self, case, src):
        '''write the solver output; the expected content: {path: array}'''
        import h5py
        rng = np.random.RandomState(case['seed'])
        nw, nv, t = 2 * case['nw'] + 1, 2 * case['nv'], case['target']
        want = {}
        cx = lambda *s: rng.standard_normal(s) + 1j * rng.standard_normal(s)
        with h5py.File(src, 'w') as f:
            f.create_group('.config').attrs['general.beta'] = 4.
            f['.axes/iwb-g4'] = np.arange(nw)
            for at, (nb, sym) in enumerate(zip(case['nb'], case['sym'])):
                ineq = f'ineq-{at + 1:03}'
                if t == '1freq_f':
                    for q in ('giw', 'siw'):
                        x = cx(nb, 2, nv)
                        f[f'dmft-last/{ineq}/{q}/value'] = x
                        want[f'dmft-last/{ineq}/{q}_unsymmetrized/value'] = x
                        av = np.array([np.mean([x[j - 1].mean(axis=0) for j in sym[b]], axis=0) for b in range(nb)])
                        want[f'dmft-last/{ineq}/{q}/value'] = np.stack([av, av], axis=1)
                    continue
                kan = kanamori(nb)
                x = {}
                for b in kan:
                    for s in MAGN:
                        v = cx(*{'1freq_b': (nw,), '2freq': (nv, nw), '3freq': (nv, nv, nw)}[t])
                        raw = v.copy()
                        if case['nan'] and rng.rand() < .3: raw[0, -1, 0], v[0, -1, 0] = np.nan, 0
                        f[f"{case['worm']}/{ineq}/{ {'1freq_b': 'p2iw', '2freq': 'p3iw', '3freq': 'g4iw'}[t]}-worm/{compound(nb, b, s):05}/value"] = raw
                        x[b, s] = v
                for ch, wt in (('dens', DENS), ('magn', MAGN)):
                    su2 = {b: sum(w * x[b, s] for s, w in wt.items()) / (2. if ch == 'dens' else 4.) for b in kan}
                    for b in kan:
                        # images of the component under exchanges of equivalent orbitals that keep different orbitals different
                        im = {tuple(m[k] for k in b) for m in (dict(zip(sorted(set(b)), y)) for y in itertools.product(*[[j - 1 for j in sym[k]] for k in sorted(set(b))])
                                                               if len(set(y)) == len(set(b)))}
                        v = sum(su2[y] for y in im) / len(im)
                        g = f'{band_index(nb, b):05}'
                        if t == '1freq_b': want[f'{ineq}/{ch}/{g}'] = v
                        for iw in range(nw if t != '1freq_b' else 0):
                            want[f'{ineq}/{ch}/{iw:05}/{g}' + ('/value' if t == '3freq' else '')] = v[:, iw] if t == '2freq' else v[:, :, iw].T
        return want

    def run(self, case, choices, root):
        import h5py
        from dga import symmetrize
        r = Res()
        t = case['target']
        fin, fout = ('g4iw.hdf5', 'g4iw_sym.hdf5') if case['start'] == 'argv' else ('Vertex.hdf5', 'sym.hdf5')
        src, dst = os.path.join(root, fin), os.path.join(root, fout)
        want = self.data(case, src)
        raw = open(src, 'rb').read()
        old = None
        if case['existing']:
            with open(dst, 'wb') as f: f.write(b'something of the user')
            old = open(dst, 'rb').read()
        lines = [dict(zip(('1freq_f', '1freq_b', '2freq', '3freq'), '0123'))[t], fin, str(len(case['nb']))]
        for nb, sym in zip(case['nb'], case['sym']): lines += [str(nb)] + [' '.join(map(str, s)) for s in sym]
        lines.append(fout)

        def entry():
            if case['start'] == 'api':
                return symmetrize.main(dict(nineq=len(case['nb']), target=t, sym_type='o', outfile=dst, infile=src, Nbands=case['nb'], sym=case['sym'], worm_group=case['worm']))
            runpy.run_path(symmetrize.__file__, run_name='__main__')

        def answer(prompt=''):
            p = core.current()
            if not p.locals['answers']: raise EOFError(f'unexpected question: {prompt}')
            return p.locals['answers'].pop(0)

        def state():
            if not os.path.exists(dst): return 'absent'
            if old is not None and open(dst, 'rb').read() == old: return 'old'
            try:
                got = {}
                with h5py.File(dst, 'r') as f:
                    f.visititems(lambda n, o: got.__setitem__(n, o[()]) if isinstance(o, h5py.Dataset) else None)
                    axes = '.axes' in f
            except Exception as e:  # noqa
                return f'unreadable ({type(e).__name__}: {e})'
            for k, v in want.items():
                if k not in got: return f'wrong: {k} is missing'
                d = dgarun.same(got[k], v, 1e-12)
                if d: return f'wrong: {k}: {d}'
            if t in ('3freq', '1freq_f') and not axes: return 'wrong: the frequency axes are missing'
            return 'complete'

        argv = ['symmetrize.py'] + ([case['worm']] + ([fin] if case['seed'] % 2 else []) if case['start'] == 'argv' else [])
        used = 0
        keep = builtins.input
        builtins.input = answer
        try:
            for i, a in enumerate(case['runs'] + [dict(n=case['last'], crash=None, faults=[])]):
                final = i == len(case['runs'])
                before = state()
                w = dgarun.make_world(dict(case, faults=a['faults'], sched_seed=case['seed'] + i), None if choices is None else choices[used:], root)
                for j in range(a['n']):
                    w.spawn(entry, job=10 * i + j, rank=0, argv=argv, np_seed=1).locals['answers'] = list(lines)
                dgarun.run_world(w, dict(a['crash']) if a['crash'] else None, root)
                r.add_world(w)
                r.choices = (r.choices or []) + w.ch.rec
                used += len(w.ch.rec)
                dist = bool(w.fs.injected) or any(p.dead for p in w.procs)
                r.nontrivial |= dist or a['n'] > 1 or sum(case['nb']) > 1
                if r.violations: return r
                st = state()
                what = f'attempt {i + 1} of {len(case["runs"]) + 1} ({t}, {a["n"]} process(es), {w.fs.injected[:1]}, crash {a["crash"] if any(p.dead for p in w.procs) else None})'
                r.states.append(f'{t}/{case["start"]}/{case["nb"]}/{before}>{st}/{a["n"]}/{dist}'[:100])
                if st not in ('absent', 'old', 'complete'):
                    r.bad('incomplete-under-final-name', f'after {what} {fout} is {st}')
                    return r
                # (the one-particle target replaces an existing file)
                if before in ('old', 'complete') and st != before and not (t == '1freq_f' and st == 'complete'):
                    r.bad('existing-file-lost', f'after {what} {fout} went from {before} to {st}')
                    return r
                if open(src, 'rb').read() != raw:
                    r.bad('input-changed', f'{what} changed {fin}')
                    return r
                for p in w.procs:
                    good = p.exc is None and p.done and not p.dead and not p.kill and (not isinstance(p.result, tuple) or p.result[1] in (0, None))
                    if good and st == 'absent':
                        r.bad('success-without-file', f'{what}: process {p.job} reported success, but there is no {fout}')
                        return r
                    if not good and not dist:
                        r.bad('failed-without-cause', f'{what}: {p.exc!r} {p.result!r} {p.exc_tb or ""}'[-900:])
                        return r
                if final and st == 'absent':
                    r.bad('no-file', f'{what}: no {fout}')
                    return r
        finally:
            builtins.input = keep
        return r

    def shrink(self, case):
        out = []
        for i in range(len(case['runs'])):
            out.append(dict(case, runs=case['runs'][:i] + case['runs'][i + 1:]))
            a = case['runs'][i]
            for b in (dict(a, n=1), dict(a, crash=None), dict(a, faults=[])):
                if b != a and (b['crash'] or b['faults'] or b['n'] > 1): out.append(dict(case, runs=case['runs'][:i] + [b] + case['runs'][i + 1:]))
        for k, v in (('last', 1), ('nan', False), ('existing', False), ('policy', 'seq'), ('nw', 0), ('nv', 1)):
            if case[k] != v: out.append(dict(case, **{k: v}))
        if len(case['nb']) > 1: out.append(dict(case, nb=case['nb'][:1], sym=case['sym'][:1]))
        return out


CHECK = C23()
