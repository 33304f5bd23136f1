'''Checks that run a complete DGA job under the simulator and compare what it leaves behind with the reference model.'''
from sim import refmodel
from .util import *  # noqa

MESH_TOL = 1e-9
LAM_TOL = 2e-5


class DgaCheck(Check):
    quick_s = 22
    thorough_s = 600
    batch = 2
    rule = ('A case is a randomly drawn physical system, box, lattice symmetry, rank count, option set and schedule; it is '
            'non-trivial when more than one rank takes part.')
    real_components = REAL_DGA
    stub_components = STUB
    assumptions = ['the simulated MPI has the semantics of mpi4py over OpenMPI (checked by selftest/mpi_diff.py)',
                   'the input is causal; where it is not symmetric in v and vp and do_sym_v_vp is off, the optical vertex is not judged; nk = nq',
                   'reference model sim/refmodel.py: full Brillouin zone, no distribution, no repository code']
    need = {}

    lattices = True
    cfg_forms = True
    big = 0.

    def gen(self, rng, i, tier):
        c = gen_dga(rng)
        self.vary(rng, c, tier)
        c['opts'].update(rand_opts(rng))
        c['opts']['verbosity'] = rng.choice([1, 2])
        c['opts']['eliash'] = c['opts']['pairing'] and rng.random() < .4
        c['opts']['optics_v'] = c['opts']['optics_b'] and rng.random() < .5
        c['opts'].update(self.need)
        if c['opts']['optics_v']: c['opts']['sym_v_vp'] = True  # (f is written in a form that is symmetric in v and vp)
        self.tune(rng, c)
        if self.big and (i == 7 or rng.random() < self.big): self.enlarge(rng, c)
        if self.cfg_forms:
            if rng.random() < .2: c['cfg_rel'] = True  # started in the folder of the input, relative paths
            if rng.random() < .35: c['cfg_omit'] = rng.randrange(1, 10 ** 6)  # entries with default values left out
        return c

    def vary(self, rng, c, tier):
        c['symmetries'] = rng.choice(['two_dimensional_square'] * 5 + ['quasi_one_dimensional_square', 'none',
                                                                        'simultaneous_x_y_inversion'])
        r = rng.random()
        if r < .06: c['nk'] = [5, 5, 1]
        elif r < .12 and tier == 'thorough': c['nk'] = [6, 6, 1]
        elif r < .18 and tier == 'thorough': c['nk'] = [4, 4, 2]
        # the number of irreducible points bounds the rank count
        hi = {'two_dimensional_square': 6, 'quasi_one_dimensional_square': 9, 'none': 16,
              'simultaneous_x_y_inversion': 10}[c['symmetries']]
        c['ranks'] = rng.choice([2, 3, 4, 5, 6] + [r for r in (7, 8, 9) if r <= hi])
        if rng.random() < .06: c['ranks'] = 1
        if self.lattices and rng.random() < .3: vary_lattice(rng, c)
        if self.lattices and rng.random() < .12: list_symmetries(rng, c)
        if c['seed'] % 14 == 3 and not c.get('hop') and c['symmetries'] == 'two_dimensional_square' and c['nk'] == [4, 4, 1]:
            c.update(symmetries='none', ranks=11 + c['seed'] % 2)  # rank numbers of two digits

    def enlarge(self, rng, c):
        '''More than a thousand momenta (names of groups grow by a digit) and, at times, more than ten ranks.'''
        for k in ('hop', 'hr_file', 'inf_box'): c.pop(k, None)
        c.update(nk=rng.choice([[32, 32, 1], [36, 28, 1], [11, 10, 10]]), symmetries='none', ranks=rng.choice([2, 3, 11, 12]), niw_in=2, niv_in=3,
                 box=dict(niw_core=2, niv_core=3, niv_shell=rng.choice([0, 1])), max_steps=10 ** 6, policy=rng.choice(['rr', 'sticky', 'uniform']))
        o = {k: False for k in ('pairing', 'eliash', 'optics_b', 'optics_v', 'save_fq', 'save_vrg', 'poly')}
        o.update(self.need, verbosity=1)
        for k in ('niw_vert', 'niw_cond', 'der_a', 'der_b'): c['opts'].pop(k, None)
        c['opts'].update(o)

    def tune(self, rng, c): pass
    def judge(self, r, case, ref, out): raise NotImplementedError

    def run(self, case, choices, root):
        r = Res()
        r.nontrivial = case['ranks'] > 1
        dd, path = dgarun.prepare(case, root)
        o = dgarun.run_dga(case, root, choices, path=path, prep=False)
        r.add_world(o.world)
        r.choices = o.world.ch.rec
        if o.world.verdicts: return r
        if not o.ok:
            r.bad('run-failed', f'{o.errors} {o.orphaned or ""} {(o.tb or [""])[0] or ""}'[-1400:])
            return r
        dirs = dgarun.find_output_dirs(path)
        if len(dirs) != 1:
            r.bad('output-dir', f'{dirs}')
            return r
        out = dgarun.collect(os.path.join(path, dirs[0]))
        r.states.append(f'{case["ranks"]}/{case["symmetries"] if "symmetries" in case else ""}/{case["box"]}')
        ref = refmodel.Ref(case, dd)
        ref.local()
        ref.nonlocal_()
        self.judge(r, case, ref, out)
        return r

    def cmp(self, r, name, got, want, tol=MESH_TOL):
        if got is None:
            r.bad(f'{name}-missing', f'{name} was not written')
            return False
        if isinstance(got, Exception):
            r.bad(f'{name}-unreadable', f'{name}: {got}')
            return False
        m = dgarun.same(got, want, tol)
        if m:
            extra = ''
            if np.shape(got) == np.shape(want):
                d = np.abs(np.asarray(got) - np.asarray(want))
                i = np.unravel_index(np.argmax(d), d.shape)
                extra = f'; worst entry {tuple(int(x) for x in i)}: {np.asarray(got)[i]} expected {np.asarray(want)[i]}'
            r.bad(name, f'{name}: {m}{extra}')
            return False
        return True

    def chi_from_output(self, ref, out):
        '''Use the written lambda-corrected susceptibilities downstream, so that one deviation is reported once.'''
        ref.chi_lam = {c: np.asarray(out[f'chi_{c}_lam.npy']).reshape(len(ref.qs), -1) for c in ('dens', 'magn')}

    def shrink(self, case):
        out = shrink_common(case)
        if case.get('symmetries') != 'two_dimensional_square' and not case.get('hop'):
            out.append(dict(case, symmetries='two_dimensional_square', ranks=min(case['ranks'], 6)))
        if case['nk'] != [4, 4, 1]: out.append(dict(case, nk=[4, 4, 1], ranks=min(case['ranks'], 6)))
        for k in ('cfg_rel', 'cfg_omit'):
            if case.get(k): out.append({a: b for a, b in case.items() if a != k})
        keep = {k: v for k, v in self.need.items()}
        return [c for c in out if all(c['opts'].get(k) == v for k, v in keep.items())]
