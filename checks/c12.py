'''C12: a run that reports success under disk errors left complete results.'''
import shutil

from .faultbase import *  # noqa
from .maxentbase import finished_run, gen_mejob, QUANT


def picks(rng):
    return [[round(rng.random(), 4), round(rng.random(), 4), rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EDQUOT', 'short']),
             rng.random() < .5] for _ in range(rng.choice([1, 1, 1, 2]))]


class C12(FaultCheck):
    id = 'C12'
    quick_s = 50

    def gen(self, rng, i, tier):
        if rng.random() < .8: return super().gen(rng, i, tier)
        c = gen_mejob(rng, False)
        me = {k: v for k, v in c['max_ent_later'].items() if k not in QUANT and k not in ('loc', 'bw_range_loc')}
        for q in rng.sample(sorted(QUANT), rng.choice([1, 1, 2])): me[q] = dict(do_cont=True)
        if rng.random() < .3: me.update(loc=dict(do_cont=True), bw_range_loc=rng.choice([[0.1, 0.3], [0.01, 0.05, 0.1, 0.2, 0.35, 0.5, 1.0]]))
        c.update(max_ent_later=me, symmetries='two_dimensional_square', ranks=rng.choice([1, 2, 2, 3]), picks=picks(rng), cont=True)
        return c

    def faults(self, rng, c):
        if rng.random() < .6:
            c['picks'] = picks(rng)
            return []
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            op = rng.choice(['open_w', 'open_w', 'write', 'write', 'write', 'open_r', 'read', 'mkdir', 'remove', 'anywrite'])
            pat = rng.choice(['*', '*', '*.npy', '*.txt', '*.npy', '*.yaml', '*/Eliashberg/*', '*/Optics/*', '*Plots*', '*.log', '*fit*',
                              '*siw*', '*chi*', '*F_*', '*hr*', '*.hdf5'])
            out.append(dict(op=op, path=pat, nth=rng.choice([0, 0, 0, 1, 2, 3, rng.randrange(30)]),
                            kind=rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EDQUOT', 'EROFS']
                                            + (['short', 'short', 'short'] if op == 'write' else [])),
                            rank=rng.choice([None, None, 0]), sticky=rng.random() < .3))
        return out

    def run(self, case, choices, root):
        if not case.get('cont'): return super().run(case, choices, root)
        from dga import dga_max_ent
        r = Res()
        a = os.path.join(root, 'a')
        os.makedirs(a)
        d, err = finished_run(case, a)
        r.worlds += 1
        if d is None:
            r.bad('run-failed', err)
            return r
        keep = {f for f in dgarun.collect(d, skip=('.png', '.log', '.pdf'))}
        runs, ops = {}, None
        for nm in ('ref', 'run'):
            sub = os.path.join(root, nm)
            os.makedirs(sub)
            dd = shutil.copytree(d, os.path.join(sub, 'out')) + '/'
            c = dict(case, log_ops=nm == 'ref', policy='seq' if nm == 'ref' else case['policy'])
            if nm == 'run': c['faults'] = self.pick(case, ops)
            w = dgarun.make_world(c, choices if nm == 'run' else [], sub)
            mpi.spawn_job(w, case['ranks'], lambda comm: dga_max_ent.main(dd, comm), np_seed=case['np_seed'])
            dgarun.run_world(w, None, sub)
            o = dgarun.outcome(w)
            if nm == 'ref':
                r.worlds += 1
                ops = w.fs.ops
                if not o.ok:
                    r.bad('run-failed', f'{o.errors} {(o.tb or [""])[0]}'[-1200:])
                    return r
            else:
                r.add_world(w)
                r.choices = w.ch.rec
            runs[nm] = {f: v for f, v in dgarun.collect(dd).items() if f not in keep}
        r.nontrivial = bool(w.fs.injected)
        r.info['continuation'] = 1
        r.info['failed-loudly'] = int(not o.ok)
        if w.verdicts or (not o.ok and not o.orphaned): return r
        if o.orphaned: r.bad('hang-after-failure', o.orphaned)
        else:
            for k, m in dgarun.compare(runs['run'], runs['ref'], rtol=1e-6):
                r.bad('silent:' + k.split(':')[0], f'the continuation reported success after {w.fs.injected[:3]}, but {k}: {m}')
        return r

    def shrink(self, case):
        if not case.get('cont'): return super().shrink(case)
        out = [dict(case, picks=[p]) for p in case['picks']] if len(case['picks']) > 1 else []
        return out + [dict(case, ranks=n) for n in range(1, case['ranks'])]


CHECK = C12()
