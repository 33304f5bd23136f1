'''C14: distributed analytic continuation gives every momentum the continuation of its own data.'''
import shutil

from .maxentbase import *  # noqa


class C14(Check):
    id = 'C14'
    quick_s = 30
    thorough_s = 500
    batch = 2
    rule = ('A case is either a set of imaginary-axis functions continued on N ranks or the whole continuation program run on a finished '
            'DGA output; non-trivial when more than one rank takes part.')
    assumptions = ['the solver is deterministic for identical input data', 'at least one task per rank']
    real_components = REAL_DGA + ', ana_cont (vendored solver)'
    stub_components = STUB

    def gen(self, rng, i, tier):
        if rng.random() < .45:
            c = gen_me(rng)
            if c['size'] == 1: c['size'] = 2
            c['ntasks'] = max(c['ntasks'], c['size'])
            c['mode'] = 'direct'
        else:
            c = gen_mejob(rng)
            c['mode'] = 'job'
        return c

    def run(self, case, choices, root):
        r = Res()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if case['mode'] == 'direct': self.direct(case, choices, root, r)
            else: self.job(case, choices, root, r)
        return r

    def direct(self, case, choices, root, r):
        mat = rows(case)
        w, _ = distributed(case, choices, root, mat, {}, r)
        r.nontrivial = case['size'] > 1
        r.states.append(f'{case["size"]}/{case["ntasks"]}/{case["kind"]}')
        if r.violations: return
        if exc_text(w) or w.orphaned: return r.bad('job-failed', f'{exc_text(w)} {w.orphaned or ""}')
        r.worlds += 1
        got = w.procs[0].result
        if got is None or np.shape(got) != (case['ntasks'], case['nwr']):
            return r.bad('shape', f'{np.shape(got)} expected {(case["ntasks"], case["nwr"])}')
        from dga import analytic_continuation as ac
        grid = ac.MaxEnt(case['beta'], case['kind'], comm=object(), me_config=settings(case)).w
        for j in range(case['ntasks']):
            d = agrees(got[j], mat[j], settings(case), case['kind'], case['beta'], info=r.info, grid=grid)
            if d:
                r.bad('row', f'row {j} of {case["ntasks"]} on {case["size"]} ranks is not the continuation of its own data: {d}')
                return

    def job(self, case, choices, root, r):
        from dga import dga_max_ent
        a = os.path.join(root, 'a')
        os.makedirs(a)
        d, err = finished_run(case, a)
        r.worlds += 1
        r.nontrivial = True
        if d is None: return r.bad('run-failed', err)
        d1 = os.path.join(root, 'copy') + '/'
        shutil.copytree(d, d1)
        before = dgarun.collect(d)
        w = job(case, choices, root, case['ranks'], lambda comm: dga_max_ent.main(d, comm), res=r)
        if r.violations: return
        w1 = job(dict(case, policy='seq'), [], root, 1, lambda comm: dga_max_ent.main(d1, comm))
        r.worlds += 1
        if exc_text(w1): return r.bad('one-rank-failed', exc_text(w1) + ' ' + (w1.procs[0].exc_tb or '')[-900:])
        if exc_text(w) or w.orphaned:
            return r.bad('job-failed', f'{exc_text(w)} {w.orphaned or ""} ' + ''.join(p.exc_tb or '' for p in w.procs)[-900:])
        x, y = dgarun.collect(d), dgarun.collect(d1)
        for k, m in dgarun.compare(x, y, rtol=1e-8): r.bad('ranks:' + k.split('[')[0], f'{k}: {m} ({case["ranks"]} ranks against one)')
        for k, m in dgarun.compare({k: v for k, v in x.items() if k in before}, before, rtol=0): r.bad('input-changed', f'{k}: {m}')
        if r.violations: return
        me = case['max_ent_later']
        r.states.append(f'{case["ranks"]}/{case["symmetries"]}/' + '/'.join(q for q in QUANT if q in me))
        for q, (sub, nm, kind) in QUANT.items():
            f = f'{sub}/{nm}_cont_fbz.npy'
            if q not in me or not me[q]['do_cont']:
                if f in x: r.bad('unrequested', f)
                continue
            if f not in x: return r.bad('missing', f)
            self.members(r, case, x, q, dict(me, **me[q]), kind, x[f])
            if not r.violations and not np.allclose(x[f'{sub}/w.npy'], self.w, rtol=1e-10, atol=1e-12): r.bad('mesh', f'{sub}/w.npy')

    def members(self, r, case, x, q, st, kind, cont):
        '''Every momentum holds the continuation of the data of a momentum equivalent to it.'''
        nk = case['nk']
        st = dict(ME_DEFAULT, **st)
        data, const, half = cont_data(x, q, st['n_fit'], case, inputs.ek_of(case))
        self.w = w_mesh(st['mesh_type'], st['wmin'] if half else 0., st['wmax'], st['nwr'], st['cut'])
        if cont.shape != tuple(nk) + (len(self.w),): return r.bad('shape', f'{q}: {cont.shape}')
        cache = {}
        for m in np.ndindex(*nk):
            orb = orbit(m, nk, case['symmetries'])
            ds = []
            for p in [min(orb)] + sorted(orb - {min(orb)}):
                ds.append(agrees(cont[m], data[p], st, kind, case['beta'], half, const, cache.setdefault(p, {}), r.info, x.get(QUANT[q][0] + '/w.npy')))
                if not ds[-1]: break
            else: return r.bad('momentum', f'{q}: the spectrum at momentum {m} is not the continuation of the data there: {ds[0]}')

    def shrink(self, case):
        if case['mode'] == 'direct': return [c for c in shrink_me(case) if c['size'] > 1]
        out = [c for c in shrink_common(case)]
        me = case['max_ent_later']
        qs = [q for q in QUANT if q in me]
        for q in qs + (['loc'] if 'loc' in me else []):
            if len(qs) > 1 or q == 'loc': out.append(dict(case, max_ent_later={k: v for k, v in me.items() if k != q}))
        return out


CHECK = C14()
