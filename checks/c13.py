'''C13: a job works with one version of its configuration on all ranks, records that version, and what it records suffices to
repeat the job - also when the configuration file is edited while the job starts and the input folder is gone afterwards.'''
from ruamel.yaml import YAML

from .dgabase import *  # noqa
from .c03 import LOOSE


def plain(x):
    if isinstance(x, dict): return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [plain(v) for v in x]
    return x


def load(f):
    with open(f) as h: return plain(YAML().load(h))


class C13(DgaCheck):
    id = 'C13'
    quick_s = 30
    rule = ('A case is a job whose configuration file is replaced (once or several times, atomically) by another process at random '
            'moments of the run; afterwards the job is repeated from the recorded configuration, in half of the cases from a new '
            'folder that holds only recorded files (configuration, DMFT data, Hamiltonian). Non-trivial when a replacement happened '
            'while the job ran or the recorded files were used alone.')
    assumptions = DgaCheck.assumptions + ['an editor replaces a file atomically (rename)', 'hopping values have at most six decimals']

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        c['opts']['verbosity'] = 0
        if rng.random() < .3: c['in_type'] = 'EDFermion'
        if rng.random() < .3: c['cfg_name'] = rng.choice(['my config.yaml', 'a.yml', 'dga_config_2.yaml'])
        c['edits'] = [dict(wait=rng.choice([rng.randrange(4), rng.randrange(40), rng.randrange(200)]), what=rng.choice(['hr', 'corr', 'box', 'opts']))
                      for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        c['alone'] = rng.random() < .5
        c['ranks2'] = rng.choice([1, 2, c['ranks']])
        if rng.random() < .3: c['box']['niv_core'] = c['box']['niw_core'] = -1
        if c['box']['niv_core'] == -1: c['niw_in'], c['niv_in'] = rng.choice([2, 3, 4]), rng.choice([4, 5])
        return c

    def variant(self, case, what):
        c = dict(case, opts=dict(case['opts']), box=dict(case['box']))
        if what == 'hr': c['hr'] = [1.0, round(case['hr'][1] + .17, 3), case['hr'][2]]
        elif what == 'corr': c['opts']['lambda_corr'] = 'spch' if case['opts']['lambda_corr'] != 'spch' else 'sp'
        elif what == 'box': c['box']['niv_shell'] = case['box']['niv_shell'] + 1
        else: c['opts'].update(save_vrg=not case['opts']['save_vrg'], poly=not case['opts']['poly'], optics_b=not case['opts']['optics_b'])
        return c

    def run(self, case, choices, root):
        from dga import dga_main
        r = Res()
        a = os.path.join(root, 'a')
        os.makedirs(a)
        cn = case.get('cfg_name', 'dga_config.yaml')
        _, path = dgarun.prepare(case, a, cfg_name=cn)
        versions = [load(path + cn)]
        texts = []
        for e in case['edits']:
            t = dgarun.config_text(self.variant(case, e['what']), path)
            texts.append(t)
            versions.append(plain(YAML().load(t)))
        w = dgarun.make_world(case, choices, a)
        mpi.spawn_job(w, case['ranks'], lambda comm: dga_main.main(), argv=['dga_main', '-p', path] + (['-c', cn] if cn != 'dga_config.yaml' else []),
                      np_seed=case['np_seed'])

        def editor(comm):
            for e, t in zip(case['edits'], texts):
                for _ in range(e['wait']): os.path.exists(path + cn)
                with open(path + 'tmp', 'w') as f: f.write(t)
                os.replace(path + 'tmp', path + cn)
        if texts: mpi.spawn_job(w, 1, editor, job=1, np_seed=1)
        dgarun.run_world(w, None, a)
        r.add_world(w)
        r.choices = w.ch.rec
        r.faults['config-replaced'] = len(texts)
        r.nontrivial = bool(texts) or case['alone']
        if w.verdicts: return r
        o = dgarun.outcome(w, 0)
        if not o.ok:
            r.bad('run-failed', f'{o.errors} {o.orphaned or ""} {(o.tb or [""])[0] or ""}'[-1300:])
            return r
        ds = dgarun.find_output_dirs(path)
        if len(ds) != 1:
            r.bad('output-dir', f'{ds}')
            return r
        out = os.path.join(path, ds[0])
        rec = load(os.path.join(out, 'dga_config.yaml'))
        if rec not in versions:
            r.bad('recorded-config', f'the recorded configuration is none of the {len(versions)} versions: {rec}')
            return r
        r.states.append(f'v{versions.index(rec)}/{len(texts)}/{case["alone"]}')
        # the same job again from what was recorded
        b = os.path.join(root, 'b') + '/'
        os.makedirs(b)
        conf = plain(rec)
        conf['dmft_input']['input_path'] = b
        if case['alone']:
            conf['dmft_input'].update(type='default', fname_1p='dmft_input.npy', fname_2p='dmft_input.npy')
            np.save(b + 'dmft_input.npy', np.load(os.path.join(out, 'dmft_input.npy'), allow_pickle=True), allow_pickle=True)
            conf['lattice'].update(type='from_wannier90', hr_input=os.path.join(out, 'wannier_hr.dat'))
        else: dgarun.prepare(dict(case), b, cfg_name='unused.yaml')
        with open(b + 'again.yaml', 'w') as f: YAML().dump(conf, f)
        o2 = dgarun.run_dga(dict(case, policy='seq'), b, [], path=b, prep=False, ranks=case['ranks2'], argv_cfg='again.yaml')
        r.worlds += 1
        ds2 = dgarun.find_output_dirs(b)
        if not o2.ok or len(ds2) != 1:
            r.bad('repetition-failed', f'{o2.errors} {ds2} {(o2.tb or [""])[0] or ""}'[-1300:])
            return r
        rec2 = load(os.path.join(b, ds2[0], 'dga_config.yaml'))
        if rec2 != conf: r.bad('recorded-config', 'the repetition did not record its configuration')
        if ds2 != ds: r.bad('output-name', f'{ds2} for the repetition of {ds}')
        x, y = dgarun.collect(out), dgarun.collect(os.path.join(b, ds2[0]))
        for k, m in dgarun.compare(x, y, rtol=1e-6, ignore=('Rank', '_config.yaml'), loose=LOOSE):
            r.bad('differs:' + k.split(':')[0].split('[')[0], f'{k}: job and repetition from its recorded configuration (version {versions.index(rec)}): {m}')
        for nm, sec in (('eliashberg_config', 'pairing'), ('optics_config', 'optics')):
            f = os.path.join(out, 'Eliashberg' if sec == 'pairing' else 'Optics', nm + '.yaml')
            if not os.path.exists(f): continue
            got = load(f)
            for k, v in rec.get(sec, {}).items():
                if plain(got.get(k)) != plain(v): r.bad('recorded-section', f'{nm}: {k} = {got.get(k)}, configured {v}')
        return r

    def shrink(self, case):
        out = super().shrink(case)
        for e in range(len(case['edits'])): out.insert(0, dict(case, edits=case['edits'][:e] + case['edits'][e + 1:]))
        if case['alone']: out.insert(0, dict(case, alone=False))
        return out


CHECK = C13()
