'''C24: the configuration template that dga_dc puts into the current folder starts the job it documents.'''
from ruamel.yaml import YAML

from .dgabase import *  # noqa
from .c03 import LOOSE


def merge(d, e):
    for k, v in e.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict): merge(d[k], v)
        else: d[k] = v


class C24(DgaCheck):
    id = 'C24'
    quick_s = 30
    thorough_s = 300
    rule = ('A case is one or two dga_dc calls in a folder with solver data (with storage errors in some cases), the template edited to a random system '
            'and random documented values, a job on N ranks from it, and the same job from a configuration that holds only what differs from the documented '
            'defaults; non-trivial when more than one rank takes part or a storage error was injected.')
    assumptions = DgaCheck.assumptions + ['the package is installed from its source folder, as the README says (the template is not packaged)']
    real_components = 'cli.dga_config_generator, config_templates/dga_config.yaml and ' + REAL_DGA
    cfg_forms = False

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        o, b = c['opts'], c['box']
        c['in_type'] = 'w2dyn'
        c['ranks'] = min(c['ranks'], 5)
        c['hr_file'] = 'wannier_hr.dat'
        c['cfg_rel'] = True
        o.update(poly=True, optics_b=True, niw_cond=rng.randrange(2, max(3, min(b['niw_core'], b['niv_core'] - 1) + 1)),
                 optics_me=dict(nwr=rng.choice([40, 41]), wmax=15, wmin=-15, n_fit=-1))
        if rng.random() < .05: c['max_ent'] = dict(nwr=rng.choice([40, 41]), wmax=15, wmin=-15, mesh_type='tan', alpha_det_method='chi2kink', bw=0.01, n_fit=4, loc=dict(do_cont=False))
        o['n_eig'], o['max_count'], o['eps'] = 2, 10000, 1e-6
        o['k_sym'] = rng.choice(['random', 'd-wave', 'p-wave-x', 'p-wave-y'])
        if o['k_sym'] != 'random': o['n_eig'] = 1  # (further eigenvectors, and all where the symmetries remove the start, begin with rounding errors)
        if rng.random() < .7: o['eliash'] = False
        if rng.random() < .3:
            c['niw_in'], c['niv_in'] = rng.choice([3, 4]), rng.choice([5, 6])
            b.update(niw_core=-1, niv_core=-1)
            if rng.random() < .5: b['niv_shell'] = rng.choice([4, 5])
            c['exp_box'] = rng.random() < .6
        if rng.random() < .2 and not isinstance(c["symmetries"], list): list_symmetries(rng, c)
        c['dc'] = rng.choice([1, 1, 1, 2])
        if rng.random() < .35:
            c['dc_faults'] = [dict(op=rng.choice(['open_w', 'write', 'open_w', 'any']), path='*', rank=None, nth=rng.randrange(3), kind=rng.choice(['EIO', 'ENOSPC']), sticky=rng.random() < .4)]
        c['only'] = rng.randrange(1, 10 ** 6)
        return c

    def run(self, case, choices, root):
        from cli import dga_config_generator
        from dga import dga_main
        r = Res()
        r.nontrivial = case['ranks'] > 1
        a, b = os.path.join(root, 'a'), os.path.join(root, 'b')
        os.makedirs(a)
        _, path = dgarun.prepare(case, a)
        mine = YAML().load(dgarun.config_text(case, path))
        os.remove(path + 'dga_config.yaml')
        before = set(os.listdir(a))
        import dga
        template = os.path.join(os.path.dirname(dga.__file__), '../../config_templates/dga_config.yaml')
        want = open(template, 'rb').read()
        used = []
        for k in range(case['dc']):
            w = dgarun.make_world(dict(case, faults=(case.get('dc_faults') or []) if k == 0 else []), None if choices is None else choices[len(used):], a)
            w.spawn(dga_config_generator.main, job=k, rank=0, argv=['dga_dc'], np_seed=1)
            dgarun.run_world(w, None, a)
            r.add_world(w)
            used += w.ch.rec
            r.choices = used
            if r.violations: return r
            p = w.procs[0]
            ok = p.exc is None
            r.nontrivial |= bool(w.fs.injected)
            if not ok and not w.fs.injected:
                r.bad('dga_dc-failed', f'{p.exc!r} {p.exc_tb}'[-900:])
                return r
            if ok:
                got = open(path + 'dga_config.yaml', 'rb').read() if os.path.exists(path + 'dga_config.yaml') else None
                if got != want:
                    r.bad('template', f'dga_dc reported success (faults: {w.fs.injected}), but dga_config.yaml is {"missing" if got is None else "not the template"}')
                    return r
            extra = set(os.listdir(a)) - before - {'dga_config.yaml'}
            if extra or open(template, 'rb').read() != want:
                r.bad('dga_dc-wrote', f'dga_dc left {extra}')
                return r
        if not ok:
            w = dgarun.make_world(case, [], a)
            w.spawn(dga_config_generator.main, job=9, rank=0, argv=['dga_dc'], np_seed=1)
            dgarun.run_world(w, None, a)
            if w.procs[0].exc is not None: r.bad('dga_dc-again', f'{w.procs[0].exc!r}')
            if r.violations: return r
        # the user edits the template
        y = YAML()
        conf = y.load(open(path + 'dga_config.yaml'))
        if 'max_ent' not in mine: del conf['max_ent']  # (an optional section, slow to run)
        merge(conf, mine)
        with open(path + 'dga_config.yaml', 'w') as f: y.dump(conf, f)
        outs = []
        for k, sub in enumerate((a, b)):
            if k:
                e = dict(case['box'], niw_core=case['niw_in'], niv_core=case['niv_in']) if case.get('exp_box') else case['box']
                dgarun.prepare(dict(case, cfg_omit=case['only'], box=e), b)
            w = dgarun.make_world(case if k == 0 else dict(case, policy='seq'), [] if k else None if choices is None else choices[len(used):], sub)
            mpi.spawn_job(w, case['ranks'], lambda comm: dga_main.main(), argv=['dga_main', '-p', path if k == 0 else './'], np_seed=case['np_seed'])
            dgarun.run_world(w, None, sub)
            if k == 0:
                r.add_world(w)
                used += w.ch.rec
                r.choices = used
            o = dgarun.outcome(w)
            ds = dgarun.find_output_dirs(sub)
            if r.violations: return r
            if not o.ok or len(ds) != 1:
                r.bad('run-failed' if k == 0 else 'plain-run-failed', f'{"from the template" if k == 0 else "without optional entries"}: {o.errors} {ds} {(o.tb or [""])[0] or ""}'[-1300:])
                return r
            outs.append(dgarun.collect(os.path.join(sub, ds[0])))
            for f in outs[-1]:
                if f.endswith('optics_config.yaml'): outs[-1][f] = YAML().load(outs[-1][f].decode())  # (comments of the template)
        r.states.append(f'{case["ranks"]}/{case["symmetries"]}/{case["opts"]["k_sym"] if case["opts"]["eliash"] else ""}/{case["dc"]}')
        noise = ('eigenvalues.txt', 'eliashberg.npy') if case['opts']['k_sym'].startswith('p') else ()
        for k, m in dgarun.compare(*outs, loose=LOOSE + (('cont', .2), ('bw_opt', .2), ('chi2', .2)), ignore=('dga_config.yaml',) + noise)[:3]:
            r.bad('differs', f'{k}: template against plain configuration: {m}')
        return r


CHECK = C24()
