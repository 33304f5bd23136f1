'''C15: a continuation that fails for one momentum affects neither the others nor the job.'''
from .maxentbase import *  # noqa


def reference(case, mat):
    '''Row by row, one fresh controller each, no ranks: array or None where the solver itself gives up.'''
    from dga import analytic_continuation as ac
    out = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for m in mat:
            me = ac.MaxEnt(case['beta'], case['kind'], comm=object(), me_config=settings(case))
            try: out.append(np.asarray(me.cont_single_ind(m)))
            except Exception: out.append(None)
    return out, me.w


class C15(Check):
    id = 'C15'
    quick_s = 20
    thorough_s = 400
    batch = 4
    rule = ('A case is a set of imaginary-axis functions, MaxEnt settings, a rank count and a set of rows for which the solver is '
            'made to fail (seven kinds of exception; all rows of one rank in every third case); non-trivial when a failure was delivered.')
    assumptions = ['a failing solver raises an exception (it does not loop)', 'at least one task per rank']
    real_components = 'dga.analytic_continuation, dga.mpi_aux, ana_cont (vendored solver)'
    stub_components = STUB + '; the chosen solver calls raise'

    def gen(self, rng, i, tier):
        c = gen_me(rng)
        n, s = c['ntasks'], c['size']
        k = rng.choice(['one', 'some', 'rank', 'all'] if rng.random() < .9 else ['all'])
        if k == 'one': rowset = [rng.randrange(n)]
        elif k == 'some': rowset = [j for j in range(n) if rng.random() < .4] or [0]
        elif k == 'all': rowset = list(range(n))
        else:
            b, x = divmod(n, s)
            q = rng.randrange(s)
            lo = q * b + min(q, x)
            rowset = list(range(lo, lo + b + (q < x)))
        c['fail'] = {str(j): rng.choice(sorted(EXCS)) for j in rowset}
        return c

    def run(self, case, choices, root):
        r = Res()
        mat = rows(case)
        w, inj = distributed(case, choices, root, mat, case['fail'], r)
        r.nontrivial = inj.hits > 0
        r.states.append(f'{case["size"]}/{case["ntasks"]}/{sorted(case["fail"])}')
        if r.violations: return r
        if exc_text(w) or w.orphaned:
            r.bad('job-failed', f'{exc_text(w)} {w.orphaned or ""}')
            return r
        ref, grid = reference(case, mat)
        r.worlds += 1
        got = w.procs[0].result
        if got is None or np.shape(got) != (case['ntasks'], len(grid)):
            r.bad('shape', f'{np.shape(got)} expected {(case["ntasks"], len(grid))}')
            return r
        for j in range(case['ntasks']):
            if str(j) in case['fail'] or ref[j] is None:
                if np.any(got[j] != 0): r.bad('failed-row', f'row {j} failed but holds {got[j][:4]}')
            else:
                d = dgarun.same(got[j], ref[j], 1e-8)
                if d: r.bad('other-row', f'row {j} of {case["ntasks"]} changed ({d}) because of failures in {case["fail"]}')
            if r.violations: return r
        return r

    def shrink(self, case): return [c for c in shrink_me(case) if c['fail']]


CHECK = C15()
