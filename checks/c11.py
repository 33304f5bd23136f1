'''C11: a killed run leaves the input intact and a rerun gives the results of an undisturbed run.'''
from .dgabase import *  # noqa
from .c03 import LOOSE
from .c10 import tree_hash
from .maxentbase import finished_run, gen_mejob, QUANT


class C11(DgaCheck):
    id = 'C11'
    quick_s = 30
    rule = ('A case is a system, option set and rank count whose job is killed one to three times (whole job or one rank, at a '
            'random step or at a named operation, optionally tearing the write in progress) and started again each time, or a '
            'continuation job on a finished output treated the same way; non-trivial when a kill was delivered.')
    assumptions = ['a killed process loses what it had not yet handed to the operating system; the launcher ends the other ranks']

    def gen(self, rng, i, tier):
        if rng.random() < .2:
            c = gen_mejob(rng, False)
            me = {k: v for k, v in c['max_ent_later'].items() if k not in QUANT}
            for q in rng.sample(sorted(QUANT), rng.choice([1, 1, 2])): me[q] = dict(do_cont=True)
            c.update(max_ent_later=me, symmetries='two_dimensional_square', ranks=rng.choice([1, 2, 3]), cont=True)
            cr = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                d = dict(rank=rng.choice([None, None] + list(range(c['ranks']))), torn=rng.random() < .5)
                if rng.random() < .4: d['step'] = rng.choice([rng.randrange(30), rng.randrange(200), rng.randrange(900)])
                else:
                    d['pattern'] = rng.choice([r'fs\.write .*npy', r'fs\.write .*npy', r'fs\.mkdir', r'Gatherv', r'Scatterv', r'fs\.open_w',
                                               r'fs\.write .*(swk|gwk|chi)', r'bcast', r'Barrier', r'Finalize'])
                    d['nth'] = rng.choice([0, 0, 1, 2, rng.randrange(20)])
                cr.append(d)
            c['crashes'] = cr
            return c
        c = super().gen(rng, i, tier)
        c['opts']['verbosity'] = rng.choice([0, 1])
        cr = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            d = dict(rank=rng.choice([None, None, 0] + list(range(c['ranks']))), torn=rng.random() < .5)
            if rng.random() < .5: d['step'] = rng.choice([rng.randrange(60), rng.randrange(600), rng.randrange(4000)])
            else:
                d['pattern'] = rng.choice([r'fs\.write .*npy', r'fs\.mkdir', r'fs\.h5write', r'fs\.h5close', r'fs\.h5open_w', r'Gatherv',
                                           r'Barrier', r'fs\.write .*txt', r'fs\.write .*yaml', r'fs\.open_w', r'Scatterv',
                                           r'Allreduce', r'fs\.remove', r'fs\.h5read', r'Finalize', r'fs\.write .*siwk', r'bcast'])
                d['nth'] = rng.choice([0, 0, 1, 2, rng.randrange(20)])
            cr.append(d)
        c['crashes'] = cr
        return c

    def continuation(self, case, choices, root, r):
        import re
        import shutil
        from dga import dga_max_ent
        a = os.path.join(root, 'a')
        os.makedirs(a)
        d, err = finished_run(case, a)
        if d is None: return r.bad('run-failed', err)
        inp = {f: h for f, h in tree_hash(d).items() if not f.endswith('.log')}
        d1 = os.path.join(root, 'copy') + '/'
        shutil.copytree(d, d1)
        w1 = job(dict(case, policy='seq'), [], root, 1, lambda comm: dga_max_ent.main(d1, comm))
        r.worlds += 2
        if exc_text(w1): return r.bad('run-failed', exc_text(w1) + ' ' + (w1.procs[0].exc_tb or '')[-900:])
        solo = {k: v for k, v in dgarun.collect(d1).items() if k not in inp}
        rec, hit = [], 0
        for k, cr in enumerate(case['crashes'] + [None]):
            had = tree_hash(d)
            hadd = {os.path.relpath(p, d) for p, _, _ in os.walk(d)}
            w = dgarun.make_world(dict(case, sched_seed=case['sched_seed'] + k), None if choices is None else choices[len(rec):], root)
            mpi.spawn_job(w, case['ranks'], lambda comm: dga_max_ent.main(d, comm), np_seed=case['np_seed'])
            dgarun.run_world(w, dict(cr) if cr else None, root)
            r.add_world(w)
            rec += w.ch.rec
            r.choices = rec
            o = dgarun.outcome(w)
            now = tree_hash(d)
            for f, h in inp.items():
                if now.get(f) != h: return r.bad('input-changed', f'continuation attempt {k}: {f}')
            ch = [f for f, h in had.items() if not f.endswith('.log') and now.get(f) != h]
            if ch: return r.bad('earlier-output-changed', f'continuation attempt {k} changed {ch[:4]}')
            if w.verdicts: return
            if o.crashed: hit += 1
            elif not o.ok:
                return r.bad('rerun-failed' if k else 'run-failed', f'continuation attempt {k} after {hit} kills: {o.errors} {o.orphaned or ""} {(o.tb or [""])[0]}'[-1300:])
        r.nontrivial = hit > 0
        r.info['kills'] = hit
        r.states.append(f'cont{hit}/{case["ranks"]}')
        x = dgarun.collect(d)
        for q, sub in [(q, v[0]) for q, v in QUANT.items()] + [('loc', 'MaxEnt')]:
            if q not in case['max_ent_later']: continue
            ds = sorted({os.path.dirname(f) for f in x if re.match(sub + r'(/|_\d)', f)} - hadd)
            if len(ds) != 1: return r.bad('no-new-output', f'continuation after {hit} kills wrote {q} into {ds}')
            want = {f.split('/', 1)[1]: v for f, v in solo.items() if f.startswith(sub + '/')}
            for k, m in dgarun.compare({os.path.basename(f): v for f, v in x.items() if os.path.dirname(f) == ds[0]}, want, rtol=1e-8):
                r.bad('rerun-differs:' + k.split(':')[0].split('[')[0], f'continuation after {hit} kills {case["crashes"]}: {ds[0]}/{k}: {m}')

    def run(self, case, choices, root):
        r = Res()
        if case.get('cont'):
            self.continuation(case, choices, root, r)
            return r
        a = os.path.join(root, 'a')
        os.makedirs(a)
        dd, path = dgarun.prepare(case, a)
        inp = {f: v for f, v in tree_hash(a).items()}
        ch = choices
        rec = []
        hit = 0
        known = {}
        for k, cr in enumerate(case['crashes'] + [None]):
            # one choice list for all attempts
            sub = None if ch is None else ch[len(rec):]
            o = dgarun.run_dga(dict(case, sched_seed=case['sched_seed'] + k), a, sub, crash=dict(cr) if cr else None, path=path,
                               prep=False)
            r.add_world(o.world)
            rec += o.world.ch.rec
            r.choices = rec
            for f, v in inp.items():
                if tree_hash(a).get(f) != v:
                    r.bad('input-changed', f'attempt {k}: {f}')
                    return r
            for d, h in known.items():
                if tree_hash(os.path.join(a, d)) != h:
                    r.bad('earlier-output-changed', f'attempt {k} changed {d}')
                    return r
            if o.world.verdicts: return r
            if o.crashed: hit += 1
            elif not o.ok:
                r.bad('rerun-failed' if k else 'run-failed', f'attempt {k} after {hit} kills: {o.errors} {o.orphaned or ""} {(o.tb or [""])[0]}'[-1300:])
                return r
            new = [d for d in dgarun.find_output_dirs(a) if d not in known]
            if o.ok and len(new) != 1:
                r.bad('no-new-output', f'attempt {k}: new folders {new}')
                return r
            for d in new: known[d] = tree_hash(os.path.join(a, d))
            if o.ok: last = new[0]
        r.nontrivial = hit > 0
        r.info['kills'] = hit
        b = os.path.join(root, 'b')
        os.makedirs(b)
        o = dgarun.run_dga(dict(case, policy='seq'), b, [])
        r.worlds += 1
        if not o.ok:
            r.bad('run-failed', f'{o.errors}')
            return r
        x = dgarun.collect(os.path.join(a, last))
        y = dgarun.collect(os.path.join(o.path, dgarun.find_output_dirs(o.path)[0]))
        ldir = dgarun.find_output_dirs(o.path)[0]
        for z, pa, pd in ((x, a, last), (y, b, ldir)):
            for k in z:
                if isinstance(z[k], bytes): z[k] = z[k].replace(pa.encode(), b'@').replace(pd.encode(), b'@')
        for k, m in dgarun.compare(x, y, rtol=1e-6, ignore=('Rank',), loose=LOOSE):
            r.bad('rerun-differs:' + k.split(':')[0].split('[')[0], f'after {hit} kills {case["crashes"]}: {k}: {m}')
        return r

    def shrink(self, case):
        out = [] if case.get('cont') else shrink_common(case)
        if len(case['crashes']) > 1:
            for i in range(len(case['crashes'])): out.insert(0, dict(case, crashes=case['crashes'][:i] + case['crashes'][i + 1:]))
        for i, d in enumerate(case['crashes']):
            if d.get('torn'): out.append(dict(case, crashes=case['crashes'][:i] + [dict(d, torn=False)] + case['crashes'][i + 1:]))
            if d.get('step'): out.append(dict(case, crashes=case['crashes'][:i] + [dict(d, step=d['step'] // 2)] + case['crashes'][i + 1:]))
        return out


CHECK = C11()
