'''C04: every supported run makes progress; a failing rank ends the job.'''
import re

from .dgabase import *  # noqa

FOPS = [('h5open_w', '*Rank*'), ('h5open_r', '*Rank*'), ('h5write', '*Rank*'), ('h5close', '*Rank*'), ('open_w', '*'),
        ('write', '*'), ('open_r', '*'), ('read', '*'), ('mkdir', '*'), ('h5read', '*Rank*')]


class C04(DgaCheck):
    id = 'C04'
    quick_s = 40
    rule = ('A case is a randomly drawn system, option set, rank count and schedule, in half of the cases with one storage '
            'fault or one failing allocation on one rank; it is non-trivial when more than one rank takes part.')
    assumptions = ['MPI delivers every message; an unhandled exception does not end the other ranks (as with mpirun and mpi4py), '
                   'MPI_Abort does', 'nk = nq']

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        o = c['opts']
        o['verbosity'] = rng.choice([0, 1, 2])
        o['optics_b'] = rng.random() < .5
        o['optics_v'] = rng.random() < .5
        o['eliash'] = o['pairing'] and rng.random() < .6
        if o['eliash'] and rng.random() < .5:  # tolerances that are not reached
            o['eps'], o['max_count'], o['n_eig'] = rng.choice([0.0, 1e-15, 1e-9]), rng.choice([1, 3, 20]), rng.choice([1, 1, 2])
        if rng.random() < .15: o['optics_section'] = True
        if rng.random() < .3: c['box']['niv_shell'] = 0
        if rng.random() < .12 and c['symmetries'] != 'simultaneous_x_y_inversion':
            hi = n_irr(c['nk'], c['symmetries'])
            c['ranks'] = hi + rng.choice([0, 1, 2])
            c['too_many'] = c['ranks'] > hi
        u = rng.random()
        if u < .45 and not c.get('too_many'):
            op, pat = rng.choice(FOPS)
            few = op in ('h5open_w', 'h5open_r', 'h5close', 'mkdir', 'open_r', 'read')
            nth = rng.choice([0, 0, 1, 1, 2, 3, 5]) if few else rng.randrange(12) if op != 'write' else rng.randrange(60)
            c['faults'] = [dict(op=op, path=pat, nth=nth, kind=rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EMFILE']),
                                rank=rng.choice([None, 0] + list(range(c['ranks']))), sticky=rng.random() < .5)]
        elif u < .6 and not c.get('too_many'):
            c['raise'] = dict(rank=rng.randrange(c['ranks']), nth=int(10 ** rng.uniform(0, 2.7)))
        if c.get('faults') or c.get('raise'):
            c['max_steps'] = 60000  # an undisturbed run takes less than a tenth of that
            if rng.random() < .6: o.update(save_fq=False, optics_v=False, eliash=False, poly=False)
        c['clock'] = {'per_step': rng.choice([0.0, 0.01, 5.0]),
                      'jumps': [dict(step=rng.randrange(3000), delta=rng.choice([-1e6, 3600, 1e7]))] if rng.random() < .3 else []}
        return c

    def run(self, case, choices, root):
        r = Res()
        r.nontrivial = case['ranks'] > 1
        dd, path = dgarun.prepare(case, root)
        o = dgarun.run_dga(case, root, choices, path=path, prep=False)
        r.add_world(o.world)
        r.choices = o.world.ch.rec
        r.states.append(json_key(case))
        inj = len(o.world.fs.injected)
        r.info['ended-by-fault'] = int(bool(inj and not o.ok))
        if o.world.verdicts: return r
        if o.orphaned: r.bad('hang-after-failure', o.orphaned)
        elif case.get('too_many'):
            if o.ok or dgarun.find_output_dirs(path):
                r.bad('too-many-ranks-accepted', f'{case["ranks"]} ranks: ok={o.ok} {dgarun.find_output_dirs(path)}')
        elif not o.ok and not inj:
            r.bad('run-failed', f'{site((o.tb or [""])[0])}: {o.errors} {(o.tb or [""])[0] or ""}'[-1400:])
        elif o.ok and not inj:
            d = dgarun.find_output_dirs(path)
            log = ''
            for f in os.listdir(os.path.join(path, d[0])) if d else []:
                if f.endswith('.log'): log += open(os.path.join(path, d[0], f)).read()
            if 'Completed DGA run' not in log: r.bad('no-completion-note', f'{d} {log[-300:]}')
        return r

    def shrink(self, case):
        out = shrink_common(case)
        if case.get('clock'): out.append({k: v for k, v in case.items() if k != 'clock'})
        if case.get('symmetries') != 'two_dimensional_square' and not case.get('too_many') and not case.get('hop'):
            out.append(dict(case, symmetries='two_dimensional_square', ranks=min(case['ranks'], 6)))
        if case.get('raise'):
            n = case['raise']['nth']
            out += [dict(case, **{'raise': dict(case['raise'], nth=k)}) for k in (0, n // 2, n - 1) if 0 <= k < n]
        for i, f in enumerate(case.get('faults', ())):
            for n in (0, f['nth'] // 2, f['nth'] - 1):
                if 0 <= n < f['nth']: out.append(dict(case, faults=[dict(f, nth=n)]))
        return out if not case.get('too_many') else [c for c in out if c['ranks'] == case['ranks']]


def json_key(case):
    o = case['opts']
    return ''.join(str(int(bool(o.get(k)))) for k in ('pairing', 'eliash', 'optics_b', 'optics_v', 'save_fq', 'save_vrg', 'poly',
                                                      'keep_rank', 'optics_section')) + o['lambda_corr'] + str(o['verbosity'])


CHECK = C04()
