'''C17: sym1b leaves the complete spin average under the final name or nothing - through errors, crashes, repeats and races.'''
from .util import *  # noqa
from sim import inputs

FAULTS = ('h5open_r', 'h5read', 'h5open_w', 'h5write', 'h5close', 'rename')


class C17(Check):
    id = 'C17'
    quick_s = 20
    thorough_s = 300
    batch = 4
    rule = ('A case is a worm output file and a history of one to four sym1b attempts (one or two processes at a time), each with storage '
            'errors, a crash at a random step or no disturbance, the last one undisturbed; non-trivial when an attempt was disturbed '
            'or two processes ran at the same time.')
    assumptions = ['a rename is atomic', 'HDF5 refuses a second writer of an open file (library lock)',
                   'after an error of the disk an attempt may leave its own differently named file behind']
    real_components = 'cli.sym1b, dga.symmetrize, dga.dga_io and dga.w2dyn_aux_dga (reader), h5py with its HDF5 library'
    stub_components = 'the worm solver output is synthetic; process ids, schedule, file calls, crashes come from the simulator'

    def gen(self, rng, i, tier):
        nw, nv = rng.choice([(0, 1), (1, 2), (2, 2), (3, 1), (2, 4), (1, 5)])
        c = dict(nk=[4, 4, 1], hr=[1.0, -.2, .1], beta=rng.choice([2., 4.]), u=1.5, n=.9, niw_in=nw, niv_in=nv, niv_g=20,
                 seed=rng.randrange(10 ** 6), noise=rng.choice([0., .1, .3]), max_steps=200000,
                 names=rng.choice([None, None, None, ['Vertex 2.hdf5', 'out.hdf5'], ['Vertex.hdf5', 'g4.v1.hdf5']]),
                 policy=rng.choice(['uniform', 'sticky', 'pct', 'starve', 'rr']), nan=rng.random() < .15, existing=rng.random() < .12)
        c['runs'] = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            a = dict(n=rng.choice([1, 1, 2]), crash=None, faults=[])
            if rng.random() < .5:
                a['crash'] = dict(step=int(10 ** rng.uniform(0, 2.6)), rank=None, torn=rng.random() < .5)
                if a['n'] == 2 and rng.random() < .5: a['crash'].update(rank=0, grace=10 ** 6)  # only one of the two dies
            if rng.random() < .6 or not a['crash']:
                a['faults'] = [dict(op=rng.choice(FAULTS), path='*', rank=rng.choice([None, 0]), nth=int(10 ** rng.uniform(0, 2.3)) - 1 if rng.random() < .7 else 0,
                                    kind=rng.choice(['EIO', 'ENOSPC', 'EIO']), sticky=rng.random() < .3)]
            c['runs'].append(a)
        c['last'] = rng.choice([1, 1, 2])
        return c

    def run(self, case, choices, root):
        import h5py
        from cli import sym1b
        from dga import dga_io
        r = Res()
        dd = inputs.dmft_input(case)
        rng = np.random.RandomState(case['seed'] + 1)
        for k in ('g4iw_dens', 'g4iw_magn'):  # nothing in the average relies on a symmetry of the data
            sh = dd[k].shape
            dd[k] = dd[k] + .1 * np.max(np.abs(dd[k])) * (rng.standard_normal(sh) + 1j * rng.standard_normal(sh))
        fin, fout = case['names'] or ['Vertex.hdf5', 'g4iw_sym.hdf5']
        src, dst = os.path.join(root, fin), os.path.join(root, fout)
        comp = inputs.write_vertex(src, dd, case['noise'], case['seed'])
        if case['nan']:  # a sample the solver never visited counts as zero
            comp[4] = comp[4].copy()
            comp[4][0, 0, 0] = 0
            with h5py.File(src, 'r+') as f: f['worm-last/ineq-001/g4iw-worm/00004/value'][0, 0, 0] = np.nan
        want = inputs.spin_average(comp)
        raw = open(src, 'rb').read()
        old = None
        if case['existing']:
            with open(dst, 'wb') as f: f.write(b'something of the user')
            old = open(dst, 'rb').read()
        inputs.write_w2dyn_1p(os.path.join(root, '1p-data.hdf5'), dd)
        argv = ['sym1b', '-p', root + '/'] + (['-if', fin, '-of', fout] if case['names'] else [])

        def state():
            '''absent | old | complete | a description of what is wrong'''
            if not os.path.exists(dst): return 'absent'
            if old is not None and open(dst, 'rb').read() == old: return 'old'
            try:
                got = dga_io.load_1p_data('w2dyn', root + '/', '1p-data.hdf5', fout)
            except Exception as e:  # noqa
                return f'unreadable ({type(e).__name__}: {e})'
            for ch in ('dens', 'magn'):
                d = dgarun.same(got['g4iw_' + ch], want[ch], 1e-12)
                if d: return f'wrong: {ch}: {d}'
            with h5py.File(dst, 'r') as f:
                if '.axes' not in f: return 'wrong: the frequency axes are missing'
            return 'complete'

        used = 0
        for i, a in enumerate(case['runs'] + [dict(n=case['last'], crash=None, faults=[])]):
            final = i == len(case['runs'])
            before = state()
            w = dgarun.make_world(dict(case, faults=a['faults'], sched_seed=case['seed'] + i), None if choices is None else choices[used:], root)
            for j in range(a['n']):
                w.spawn(sym1b.main, job=10 * i + j, rank=0, argv=argv, np_seed=1)
            dgarun.run_world(w, dict(a['crash']) if a['crash'] else None, root)
            r.add_world(w)
            r.choices = (r.choices or []) + w.ch.rec
            used += len(w.ch.rec)
            dist = bool(w.fs.injected) or any(p.dead for p in w.procs)
            r.nontrivial |= dist or a['n'] > 1
            if r.violations: return r
            st = state()
            what = f'attempt {i + 1} of {len(case["runs"]) + 1} ({a["n"]} process(es), {w.fs.injected[:1]}, crash {a["crash"] if any(p.dead for p in w.procs) else None})'
            r.states.append(f'{before}>{st}/{a["n"]}/{dist}'[:80])
            if st not in ('absent', 'old', 'complete'):
                r.bad('incomplete-under-final-name', f'after {what} {fout} is {st}')
                return r
            if before in ('old', 'complete') and st != before:
                r.bad('existing-file-lost', f'after {what} {fout} went from {before} to {st}')
                return r
            if open(src, 'rb').read() != raw:
                r.bad('input-changed', f'{what} changed {fin}')
                return r
            for p in w.procs:
                good = p.exc is None and p.done and not p.dead and not p.kill and (not isinstance(p.result, tuple) or p.result[1] in (0, None))
                if good and st == 'absent':
                    r.bad('success-without-file', f'{what}: process {p.job} reported success, but there is no {fout}')
                    return r
                if not good and not dist:
                    r.bad('failed-without-cause', f'{what}: {p.exc!r} {p.result!r} {p.exc_tb or ""}'[-900:])
                    return r
            if final and st == 'absent':
                r.bad('no-file', f'{what}: no {fout}')
                return r
        return r

    def shrink(self, case):
        out = []
        for i in range(len(case['runs'])):
            out.append(dict(case, runs=case['runs'][:i] + case['runs'][i + 1:]))
            a = case['runs'][i]
            for b in (dict(a, n=1), dict(a, crash=None), dict(a, faults=[])):
                if b != a and (b['crash'] or b['faults'] or b['n'] > 1): out.append(dict(case, runs=case['runs'][:i] + [b] + case['runs'][i + 1:]))
        for k, v in (('last', 1), ('nan', False), ('existing', False), ('names', None), ('policy', 'seq'), ('noise', 0.)):
            if case[k] != v: out.append(dict(case, **{k: v}))
        return out


CHECK = C17()
