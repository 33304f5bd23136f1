'''C10: every job gets an output folder of its own and leaves earlier outputs alone.'''
import hashlib
import re

from .dgabase import *  # noqa
from .maxentbase import finished_run, gen_mejob, QUANT


def tree_hash(d):
    out = {}
    for p, _, fs_ in os.walk(d):
        for f in fs_:
            with open(os.path.join(p, f), 'rb') as h: out[os.path.relpath(os.path.join(p, f), d)] = hashlib.sha1(h.read()).hexdigest()
    return out


class C10(DgaCheck):
    id = 'C10'
    quick_s = 30
    batch = 1
    rule = ('A case is 1 to 3 jobs (own configuration file, rank count) started at once on one input folder in which up to two '
            'earlier outputs exist, or two or three continuation jobs started at once or one after the other on one finished output; non-trivial when two jobs run at '
            'once or an earlier output exists.')
    assumptions = ['the file system creates directories atomically (mkdir fails if the name exists)']

    lattices = False
    cfg_forms = False

    def gen(self, rng, i, tier):
        if rng.random() < .25:
            c = gen_mejob(rng, False)
            me = {k: v for k, v in c['max_ent_later'].items() if k not in QUANT}
            for q in rng.sample(sorted(QUANT), rng.choice([1, 1, 2])): me[q] = dict(do_cont=True)
            c.update(max_ent_later=me, serial=rng.random() < .4, mejobs=[rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([2, 2, 3]))],
                     symmetries='two_dimensional_square', policy=rng.choice(['uniform', 'uniform', 'rr', 'sticky', 'pct']))
            return c
        c = super().gen(rng, i, tier)
        c['opts'].update(verbosity=rng.choice([0, 1]), pairing=rng.random() < .3, eliash=False, optics_b=False, optics_v=False,
                         save_fq=rng.random() < .2, save_vrg=False, poly=rng.random() < .5, lambda_corr='spch')
        c['symmetries'] = 'two_dimensional_square'
        c['nk'] = [4, 4, 1]
        c['max_steps'] = 80000
        c['jobs'] = [dict(ranks=rng.choice([1, 1, 2, 3]), hr=[1.0, round(-.25 + .1 * k, 3), 0.1])
                     for k in range(rng.choice([1, 2, 2, 2, 3]))]
        c['in_hr'] = c['hr']
        c['have'] = rng.choice([[], [], [0], [1], [0, 1], [0, 2], [0, 2], [1, 2], [0, 1, 3], [0, 3]])
        if c['seed'] % 10 == 7: c['have'] = list(range(rng.choice([10, 11, 12])))  # numbers of two digits
        c['policy'] = rng.choice(['uniform', 'uniform', 'rr', 'sticky', 'pct'])
        return c

    def continuation(self, case, choices, root, r):
        import shutil
        from dga import dga_max_ent
        a = os.path.join(root, 'a')
        os.makedirs(a)
        d, err = finished_run(case, a)
        if d is None: return r.bad('run-failed', err)
        d1 = os.path.join(root, 'copy') + '/'
        shutil.copytree(d, d1)
        before = tree_hash(d)
        w1 = job(dict(case, policy='seq'), [], root, 1, lambda comm: dga_max_ent.main(d1, comm))
        r.worlds += 2
        if exc_text(w1): return r.bad('one-rank-failed', exc_text(w1) + ' ' + (w1.procs[0].exc_tb or '')[-900:])
        solo = {k: v for k, v in dgarun.collect(d1).items() if k not in before}
        groups = [list(enumerate(case['mejobs']))]
        if case.get('serial'): groups = [[x] for x in groups[0]]
        r.states.append(f'me{case.get("serial", 0)}' + '/'.join(map(str, case['mejobs'])))
        for g in groups:
            w = dgarun.make_world(case, choices, root)
            for k, n in g: mpi.spawn_job(w, n, lambda comm: dga_max_ent.main(d, comm), job=k, np_seed=case['np_seed'])
            dgarun.run_world(w, None, root)
            r.add_world(w)
            r.choices = w.ch.rec
            if w.verdicts: return
            for k, _ in g:
                o = dgarun.outcome(w, k)
                if not o.ok: return r.bad('job-failed', f'continuation job {k}: {o.errors} {(o.tb or [""])[0]}'[-1200:])
            now = tree_hash(d)
            ch = [f for f, h in before.items() if not f.endswith('.log') and now.get(f) != h]
            if ch: return r.bad('earlier-output-changed', f'files of the DGA run or of an earlier continuation changed: {ch[:4]}')
            before = now
        x = dgarun.collect(d)
        for q, sub in [(q, v[0]) for q, v in QUANT.items()] + [('loc', 'MaxEnt')]:
            if q not in case['max_ent_later']: continue
            ds = sorted({os.path.dirname(f) for f in x if re.match(sub + r'(/|_\d)', f)})
            if len(ds) != len(case['mejobs']): return r.bad('shared-output-dir', f'{len(case["mejobs"])} continuation jobs wrote {q} into {ds}')
            want = {f.split('/', 1)[1]: v for f, v in solo.items() if f.startswith(sub + '/')}
            for s in ds:
                for k, m in dgarun.compare({os.path.basename(f): v for f, v in x.items() if os.path.dirname(f) == s}, want, rtol=1e-8):
                    r.bad('mixed-output', f'{s}: {k}: {m}')

    def run(self, case, choices, root):
        from dga import dga_main
        r = Res()
        if 'mejobs' in case:
            self.continuation(case, choices, root, r)
            return r
        r.nontrivial = len(case['jobs']) > 1 or bool(case['have'])
        base = []
        for k, j in enumerate(case['jobs']):
            c = dict(case, hr=j['hr'], policy='seq')
            sub = os.path.join(root, f'solo{k}')
            os.makedirs(sub)
            o = dgarun.run_dga(c, sub, [], ranks=1)
            if not o.ok:
                r.bad('run-failed', f'{o.errors} {(o.tb or [""])[0]}'[-1200:])
                return r
            ds = dgarun.find_output_dirs(o.path)
            base.append(dgarun.collect(os.path.join(o.path, ds[0])))
            name = ds[0]
        sh = os.path.join(root, 'shared')
        os.makedirs(sh)
        path = None
        for k, j in enumerate(case['jobs']):
            _, path = dgarun.prepare(dict(case, hr=j['hr']), sh, cfg_name=f'cfg{k}.yaml')
        pre = {}
        for e in case['have']:
            nm = name + (f'_{e}' if e else '')
            os.makedirs(os.path.join(sh, nm, 'Plots'))
            for f in ('siwk_dga.npy', 'QRank00000.hdf5', 'dga_config.yaml', 'lambda.txt'):
                with open(os.path.join(sh, nm, f), 'w') as h: h.write('earlier')
            pre[nm] = tree_hash(os.path.join(sh, nm))
        inp = {f: tree_hash(sh).get(f) for f in os.listdir(sh) if os.path.isfile(os.path.join(sh, f))}
        w = dgarun.make_world(case, choices, root)
        for k, j in enumerate(case['jobs']):
            mpi.spawn_job(w, j['ranks'], lambda comm: dga_main.main(), job=k, argv=['dga_main', '-p', path, '-c', f'cfg{k}.yaml'],
                          np_seed=case['np_seed'])
        dgarun.run_world(w, None, root)
        r.add_world(w)
        r.choices = w.ch.rec
        r.worlds += len(base)
        r.states.append('/'.join(str(j['ranks']) for j in case['jobs']) + f'/{case["have"]}')
        now = {f: tree_hash(sh).get(f) for f in inp}
        if now != inp: r.bad('input-changed', f'{[f for f in inp if inp[f] != now[f]]}')
        for nm, h in pre.items():
            if tree_hash(os.path.join(sh, nm)) != h: r.bad('earlier-output-changed', nm)
        if w.verdicts: return r
        oks = [dgarun.outcome(w, k) for k in range(len(base))]
        for k, o in enumerate(oks):
            if not o.ok: r.bad('job-failed', f'job {k} of {len(base)}: {o.errors} {(o.tb or [""])[0]}'[-1200:])
        new = [d for d in dgarun.find_output_dirs(sh) if d not in pre]
        if all(o.ok for o in oks) and len(new) != len(base):
            r.bad('shared-output-dir', f'{len(base)} jobs succeeded into {new} (earlier {sorted(pre)})')
            return r
        outs = {d: dgarun.collect(os.path.join(sh, d)) for d in new}
        for k, o in enumerate(oks):
            if not o.ok: continue
            best = None
            for d, x in outs.items():
                df = dgarun.compare(x, base[k], rtol=1e-6, ignore=('Rank', 'dga_config'), loose=C03LOOSE)
                if best is None or len(df) < len(best[1]): best = (d, df)
            if best is None or best[1]: r.bad('mixed-output', f'no folder holds the results of job {k}: {best and best[0]}: {best and best[1][:3]}')
            else: outs.pop(best[0])
        return r

    def shrink(self, case):
        if 'mejobs' in case:
            out = [dict(case, serial=False)] if case.get('serial') else []
            out += [dict(case, mejobs=case['mejobs'][:-1])] if len(case['mejobs']) > 2 else []
            return out + [dict(case, mejobs=[1 if j == k else n for j, n in enumerate(case['mejobs'])])
                          for k in range(len(case['mejobs'])) if case['mejobs'][k] > 1]
        out = shrink_common(dict(case, ranks=1))
        if len(case['jobs']) > 1: out.insert(0, dict(case, jobs=case['jobs'][:-1]))
        for e in case['have']: out.insert(0, dict(case, have=[x for x in case['have'] if x != e]))
        for k, j in enumerate(case['jobs']):
            if j['ranks'] > 1: out.append(dict(case, jobs=case['jobs'][:k] + [dict(j, ranks=1)] + case['jobs'][k + 1:]))
        return out


from .c03 import LOOSE as C03LOOSE  # noqa: E402
CHECK = C10()
