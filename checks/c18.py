'''C18: every supported input format leads to the same results, and a failed or incomplete read of the input is never silent.'''
from .faultbase import *  # noqa


class C18(FaultCheck):
    id = 'C18'
    quick_s = 25
    thorough_s = 400
    # the records of the input itself differ between formats by construction
    ignore = ('Rank', 'dga_config.yaml', 'lattice.yaml', 'config.yaml', 'wannier_hr.dat', '1p-data', 'g4iw_sym', 'h_latt')
    rule = ('A case is a random system whose input is written as default, EDFermion or w2dynamics files, with the Hamiltonian given by '
            'parameters or as a wannier90 file (shuffled R vectors, degeneracies, zero entries); two thirds have read errors on the input '
            'files on chosen ranks, truncated input files or input files without one of their data sets. It is compared with the undisturbed run of the default format; non-trivial '
            'when the format differs or a fault was delivered.')

    def tune(self, rng, c):
        o = c['opts']
        o['eliash'] = o['optics_v'] = False
        o['keep_pairing'] = o['keep_fq_optics'] = True
        if rng.random() < .6: o['optics_b'] = o['pairing'] = o['poly'] = False
        c['in_type'] = rng.choice(['w2dyn', 'w2dyn', 'EDFermion', 'default'])
        if c.get('hop') or rng.random() < (.4 if c['in_type'] != 'default' else 1): c['hr_file'] = rng.choice(['hr.dat', 'my_hr.dat'])
        if rng.random() < .3: c['box']['niw_core'] = c['box']['niv_core'] = -1
        if c['box']['niv_core'] == -1: c['niw_in'], c['niv_in'] = rng.choice([2, 3]), rng.choice([4, 5])

    def files(self, c):
        return (['1p-data.npy'] if c['in_type'] == 'default' else ['1p-data.hdf5'] * 3 + ['g4iw_sym.hdf5'] * 2) + \
            ([c['hr_file']] if 'hr_file' in c else [])

    def faults(self, rng, c):
        u = rng.random()
        if u < .3: return []
        if u < .45:
            if c['in_type'] != 'default' and rng.random() < .4:
                c['drop'] = ['1p-data.hdf5', rng.random()]  # an incomplete file: one data set is missing
                return []
            c['truncate'] = {rng.choice(self.files(c)): round(rng.choice([rng.random(), .99, .999, 0.]), 3)}
            return []
        out = []
        for _ in range(rng.choice([1, 1, 2])):
            f = rng.choice(self.files(c))
            if f.endswith('.hdf5'):
                op = rng.choice(['h5open_r', 'h5read', 'h5read', 'h5read', 'h5peek'])
                nth = 0 if op == 'h5open_r' else rng.randrange(9 if f.startswith('1p') else 45)
            else:
                op = rng.choice(['open_r', 'read', 'read'])
                nth = 0 if op == 'open_r' else rng.randrange(3)
            out.append(dict(op=op, path=f, kind=rng.choice(['EIO', 'EACCES', 'EMFILE']), nth=nth,
                            rank=rng.choice([None, None, 0, 0, rng.randrange(c['ranks'])]), sticky=rng.random() < .3))
        return out

    def baseline(self, case, root, r):
        c = {k: v for k, v in case.items() if k not in ('in_type', 'hr_file', 'truncate', 'drop')}
        if c.get('hop'): c['hr_file'] = 'hr.dat'
        if c['box']['niw_core'] == -1: c['box'] = dict(c['box'], niw_core=c['niw_in'], niv_core=c['niv_in'])
        return super().baseline(c, root, r)

    def shrink(self, case):
        out = super().shrink(case)
        if 'hr_file' in case and not case.get('hop'): out.append({k: v for k, v in case.items() if k != 'hr_file'})
        if case['in_type'] != 'default' and not case.get('faults') and not case.get('truncate') and not case.get('drop'): out.append(dict(case, in_type='default'))
        return out


CHECK = C18()
