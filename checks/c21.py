'''C21: a job that reports success leaves exactly the files its configuration asks for - on any ranks, schedule, and when
cleaning up fails.'''
from .dgabase import *  # noqa

ALWAYS = ['UniformStaticSusceptibility.txt', 'chi_dens_lam.npy', 'chi_magn_lam.npy', 'dga.log', 'dmft_input.npy',
          'energies.txt', 'giwk_dga.npy', 'lambda.txt', 'mu.txt', 'oz_coeff.txt', 'siwk_dga.npy', 'wannier_hr.dat']
FIGURES = ['oz_fit'] + ['Plots/' + f for f in ('Chi_ladder_dens_kz0', 'Chi_ladder_magn_kz0', 'Chi_lam_dens_kz0', 'Chi_lam_magn_kz0', 'F_dc_wn0_niv-1',
                                               'G2_dens_wn0_niv-1', 'G2_magn_wn0_niv-1', 'Giwk_dga_kz0', 'chi_dens_magn_lad_q_tilde')]
FIG_V1 = ['Plots/' + f for f in ('Gchi_dens_wn0_niv-1', 'Gchi_magn_wn0_niv-1', 'Siwk_dga_kz0', 'chi_dens_magn_loc', 'sde__check', 'sde_dga_loc_check',
                                 'sde_dga_loc_core_check')]


def expected(case):
    o = case['opts']
    want = set(ALWAYS) | {'dga_config.yaml'}
    if o['verbosity'] > 0: want |= {'chi_dens_loc.npy', 'chi_magn_loc.npy', 'gamma_dens.npy', 'gamma_magn.npy', 'siw_sde_full.npy'}
    if o['save_vrg']: want |= {'vrg_q_dens.npy', 'vrg_q_magn.npy'}
    if o['save_fq']: want |= {'F_dens.npy', 'F_magn.npy'}
    if o['poly']: want |= {'PolyFits/' + f for f in ('Giwk_dga_poly_cont_.npy', 'Giwk_dmft_poly_cont_.npy', 'Siw_DMFT_polyfit.txt', 'Siwk_poly_cont_.npy')}
    if o['pairing'] and (o['keep_pairing'] or not o['eliash']): want |= {'Eliashberg/F_sing_pp.npy', 'Eliashberg/F_trip_pp.npy'}
    if o['eliash']: want |= {'Eliashberg/' + f for f in ('eigenvalues.txt', 'eigenvalues_s.txt', 'eliashberg.npy', 'eliashberg_config.yaml')}
    if o['optics_b'] or o['optics_v'] or o.get('optics_section'): want.add('Optics/optics_config.yaml')
    if o['optics_b']: want.add('Optics/chijj_bubble.npy')
    if o['optics_v']:
        want.add('Optics/chijj_vert.npy')
        if o['keep_fq_optics']: want.add('Optics/F_cond.npy')
    figs = FIGURES + (FIG_V1 if o['verbosity'] > 0 else [])
    if o['pairing']: figs = figs + [f'Eliashberg/F_{c}_pp{s}' for c in ('sing', 'trip') for s in ('', '_loc')]
    if o['eliash']: figs = figs + [f'Eliashberg/GapFunction_{c}_{i}' for c in ('sing', 'trip') for i in range(o.get('n_eig', 1))]
    if o['save_fq']: figs = figs + ['F_dens_niw0', 'F_magn_niw0']
    if o['optics_b']: figs = figs + ['Optics/optical_conductivity_matsubara']
    if o['optics_v']: figs = figs + ['Optics/F_cond_niw0', 'Optics/F_dens_niw0', 'Optics/F_magn_niw0']
    if o['poly']: figs = figs + [f'PolyFits/{f}_poly_cont_' for f in ('Giwk_dga', 'Giwk_dmft', 'Siwk')]
    want |= {f + '.png' for f in figs}
    if o['keep_rank']: want |= {f'QRank{r:05}.hdf5' for r in range(case['ranks'])}
    return want


class C21(DgaCheck):
    id = 'C21'
    quick_s = 25
    rule = ('A case is a random job with a random choice of every keep/save/do option on N ranks; in a third of the cases removing a file '
            'fails. Non-trivial when more than one rank takes part.')
    assumptions = ['the list of result files per option follows README, the example configuration and the comments in config.py',
                   'of the figures only those must be there whose names follow from the options, further ones may be',
                   'removing the rank files is best effort: one whose removal fails may stay']

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        o = c['opts']
        for k in ('keep_rank', 'keep_pairing', 'keep_fq_optics', 'save_fq', 'save_vrg', 'poly', 'optics_b'): o[k] = rng.random() < .5
        o['pairing'] = rng.random() < .7
        o['eliash'] = o['pairing'] and rng.random() < .5
        o['n_eig'] = rng.choice([1, 1, 2, 3])
        o['optics_v'] = o['optics_b'] and rng.random() < .6
        o['optics_section'] = rng.random() < .2
        o['verbosity'] = rng.choice([0, 1, 2])
        if rng.random() < .2: c['in_type'] = rng.choice(['EDFermion', 'w2dyn'])
        c['cfg_name'] = rng.choice(['dga_config.yaml', 'dga_config.yaml', 'other.yaml'])
        if rng.random() < .35:
            c['faults'] = [dict(op='remove', path=rng.choice(['*', '*Rank*', '*/F_*']), kind=rng.choice(['EIO', 'EACCES']), nth=rng.choice([0, 0, 1, 2]),
                                rank=rng.choice([None] + list(range(c['ranks']))), sticky=rng.random() < .4)]
        return c

    def run(self, case, choices, root):
        r = Res()
        r.nontrivial = case['ranks'] > 1
        cn = case['cfg_name']
        _, path = dgarun.prepare(case, root, cfg_name=cn)
        before = set(os.listdir(root))
        o = dgarun.run_dga(case, root, choices, path=path, prep=False, argv_cfg=cn if cn != 'dga_config.yaml' else None)
        r.add_world(o.world)
        r.choices = o.world.ch.rec
        if o.world.verdicts: return r
        if o.orphaned: return r.bad('hang-after-failure', o.orphaned) or r
        inj = o.world.fs.injected
        r.info['failed-loudly'] = int(not o.ok)
        if not o.ok:
            if not inj: r.bad('run-failed', f'{o.errors} {(o.tb or [""])[0] or ""}'[-1400:])
            return r
        dirs = dgarun.find_output_dirs(path)
        new = set(os.listdir(root)) - before
        if new != set(dirs) or len(dirs) != 1: return r.bad('output-dir', f'new entries {sorted(new)}') or r
        d = os.path.join(path, dirs[0])
        got = {os.path.relpath(os.path.join(a, f), d) for a, _, fs_ in os.walk(d) for f in fs_ }
        want = expected(case)
        r.states.append(','.join(f'{int(bool(case["opts"][k]))}' for k in sorted(case['opts']) if isinstance(case['opts'][k], bool)))
        dist = f' after {inj[0]}' if inj else ''
        for f in sorted(want - got): r.bad('missing:' + f, f'{f} was asked for but is not there{dist} (all: {sorted(got)})')
        undeletable = {q for _, _, op, q, _ in inj if op == 'remove'}
        for f in sorted(f for f in got - want if not f.endswith('.png') and (not f.startswith('QRank') or f'{dirs[0]}/{f}' not in undeletable)): r.bad('left-over:' + ('QRank' if 'Rank' in f else f), f'{f} is there but was not asked for{dist}')
        if r.violations: return r
        for f, v in dgarun.collect(d).items():
            if isinstance(v, Exception): r.bad('unreadable:' + f, f'{f}: {v!r}')
        return r


CHECK = C21()
