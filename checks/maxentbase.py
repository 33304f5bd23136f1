'''Analytic continuation on simulated ranks.'''
import warnings

from .util import *  # noqa
from sim import inputs

EXCS = {'LinAlgError': np.linalg.LinAlgError, 'RuntimeError': RuntimeError, 'ValueError': ValueError, 'MemoryError': MemoryError,
        'FloatingPointError': FloatingPointError, 'IndexError': IndexError, 'ZeroDivisionError': ZeroDivisionError}


def rows(case):
    '''Physical imaginary-axis data: fermionic Green functions / bosonic susceptibilities, one row per task.'''
    rs = np.random.RandomState(case['seed'])
    n, beta = case['n_mat'], case['beta']
    out = []
    for _ in range(case['ntasks']):
        e, w, g = rs.uniform(-2, 2, 3), rs.dirichlet([1, 1, 1]), rs.uniform(.2, .6, 3)
        if case['kind'] == 'freq_fermionic':
            iv = 1j * np.pi / beta * (2 * np.arange(-n, n) + 1)
            out.append(sum(wi / (iv - ei + 1j * gi * np.sign(iv.imag)) for wi, ei, gi in zip(w, e, g)))
        else:
            wn = 2 * np.pi / beta * np.arange(-n, n + 1)
            x = rs.uniform(.5, 2) * sum(wi * (ei ** 2 + .1) / (wn ** 2 + ei ** 2 + .1 + gi * np.abs(wn)) for wi, ei, gi in zip(w, e, g))
            out.append(x.astype(float if case.get('real') else complex))
    return np.array(out)


def settings(case):
    return dict(nwr=case['nwr'], n_fit=case['n_fit'], wmax=case['wmax'], wmin=case.get('wmin', -case['wmax']), mesh_type=case['mesh'], bw=case['bw'],
                alpha_start=1e6, alpha_end=1.0, err=case['err']) | case.get('more', {})


class inject:
    '''Make the solver fail for chosen rows (recognised by their data), and count the calls.'''

    def __init__(self, mat, fail):
        from ana_cont import continuation
        self.cls = continuation.AnalyticContinuationProblem
        self.rows = {k: (mat[int(k)], EXCS[e]) for k, e in fail.items()}
        self.hits = 0

    def __enter__(self):
        self.orig = self.cls.solve
        me = self

        def solve(prob, *a, **k):
            core_yield('solve')
            x = np.asarray(prob.im_data).reshape(-1)
            for row, exc in me.rows.values():
                y = row[len(row) // 2:]
                m = min(len(x), len(y), 3)
                if m and np.allclose(x[:m], y[:m], rtol=1e-12, atol=0):
                    me.hits += 1
                    w = core.current()
                    if w is not None: w.world.fault('solver-' + exc.__name__)
                    raise exc('injected')
            return me.orig(prob, *a, **k)
        self.cls.solve = solve
        return self

    def __exit__(self, *a):
        self.cls.solve = self.orig


def core_yield(label):
    p = core.current()
    if p is not None: p.world.step(label)


ME_DEFAULT = dict(cut=.04, n_fit=20, bw=.01, nwr=501, wmax=15, wmin=-15, err=1e-3, mesh_type='tan', alpha_start=1e9, alpha_end=1e-3,
                  alpha_div=10., fit_position=2.5, alpha_det_method='chi2kink', optimizer='newton', force_preblur=False)


def more_settings(rng):
    '''How the weight of the entropy is determined, and other entries that are passed to the solver.'''
    out = {}
    if rng.random() < .4: out['alpha_det_method'] = rng.choice(['classic', 'chi2kink'])  # ('historic' may loop forever in the vendored solver, 'bryan' is slow)
    if rng.random() < .2: out['optimizer'] = 'newton'
    if rng.random() < .3: out['alpha_div'] = rng.choice([4., 5.])
    if rng.random() < .3: out['fit_position'] = rng.choice([1.5, 2., 3.])
    return out


def w_mesh(kind, lo, hi, n, cut=.04):
    if kind == 'linear': t = np.arange(n) / (n - 1)
    elif kind == 'tan': t = np.tan(.4 * np.pi * (2 * np.arange(n) / (n - 1) - 1))
    elif kind == 'hyperbolic':
        u = 2 * np.arange(n) / (n - 1) - 1
        t = np.sign(u) * (np.sqrt(1 + u * u) - 1)
    else:
        t = np.tan(np.pi * (np.arange(n + 1) / n * (1 - 2 * cut) + cut - .5))
        t = .5 * (t[1:] + t[:-1])
    return lo + (hi - lo) * (t - t[0]) / (t[-1] - t[0])


def ref_cont(mat, st, kind, beta, half=False, jitter=None, grid=None):
    '''Continuation of one imaginary-axis function with the vendored solver: none of the repository's own continuation code.
    Returns (values, mesh); values is None where the solver gives up.'''
    from ana_cont import continuation as cont
    st = dict(ME_DEFAULT, **st)
    mat = np.asarray(mat)
    h = 0 if half else len(mat) // 2
    n = min(st['n_fit'], len(mat) if half else h)
    ferm = kind == 'freq_fermionic'
    w = w_mesh(st['mesh_type'], st['wmin'] if ferm else 0., st['wmax'], st['nwr'], st['cut'])
    if st.get('any_grid'): w = np.asarray(grid)
    elif grid is not None and np.shape(grid) == w.shape and np.allclose(grid, w, rtol=1e-10, atol=1e-12): w = np.asarray(grid)
    if jitter is not None: w = w * (1 + 1e-15 * jitter.standard_normal(len(w)))
    bw = st['bw'] if ferm or st['force_preblur'] else 0.
    model = np.ones(len(w)) / np.trapz(np.ones(len(w)), w)
    if ferm: v, y = np.pi / beta * (2 * np.arange(n) + 1), mat[h:h + n]
    else:
        v, y = 2 * np.pi / beta * np.arange(n + 1), mat[h:h + n + 1]
        model = model * mat[0].real
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            p = cont.AnalyticContinuationProblem(im_axis=v, re_axis=w, im_data=y, kernel_mode=kind, beta=float(beta))
            a = p.solve(method='maxent_svd', model=model, stdev=np.full(len(v), float(st['err'])), alpha_determination=st['alpha_det_method'], optimizer=st['optimizer'],
                        preblur=bw != 0, blur_width=bw, verbose=False, alpha_start=st['alpha_start'], alpha_end=st['alpha_end'],
                        alpha_div=st['alpha_div'], fit_position=st['fit_position'])[0].A_opt
        except Exception:  # noqa
            return None, w
    if not ferm: return a * np.pi / 2, w
    e = np.concatenate(([w[0]], (w[1:] + w[:-1]) / 2, [w[-1]]))
    d = w[None, :] - w[:, None]
    np.fill_diagonal(d, np.inf)
    return np.sum((np.diff(e) * a)[:, None] / d, axis=0) - 1j * np.pi * a, w


def agrees(got, mat, st, kind, beta, half=False, const=0., cache=None, info=None, grid=None):
    '''Is got the continuation of mat?  The solver amplifies rounding in rare cases (0.3 % of the rows): where small changes of the data
    move the reference as much as got is away from it, nothing is decided.  Returns None or the difference.'''
    def ref(k):
        if (k, 'ref') in cache: return cache[k, 'ref']
        m = np.asarray(mat)
        rs = np.random.RandomState(k)
        if k > 1 and k % 3: m = m * (1 + 10. ** (-15 + k % 5) * rs.standard_normal(m.shape))
        a, w = ref_cont(m, st, kind, beta, half, rs if k else None, grid)
        cache[k, 'ref'] = (np.full(len(w), np.nan) if a is None else a) + const
        return cache[k, 'ref']
    cache = {} if cache is None else cache
    info = {} if info is None else info
    got, a = np.asarray(got), ref(0)
    info['continued'] = info.get('continued', 0) + 1
    if got.shape != a.shape: return f'shape {got.shape} expected {a.shape}'
    scale = max(np.max(np.abs(a)), 1e-3)
    with np.errstate(invalid='ignore'):
        d = np.max(np.abs(got - a)) / scale
        if d <= 1e-4: return None
        for k in range(1, 13):
            s = np.max(np.abs(ref(k) - a)) / scale
            if not np.isfinite(s) or s > .05 * d or np.max(np.abs(got - ref(k))) <= 1e-4 * scale:
                info['ill-conditioned'] = info.get('ill-conditioned', 0) + 1
                return None
    return f'relative difference {d:.2e}'


def gen_me(rng):
    size = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    kind = rng.choice(['freq_fermionic', 'freq_bosonic'])
    nf = rng.choice([6, 8, 10])
    more = more_settings(rng) if rng.random() < .4 else {}
    if kind == 'freq_bosonic' and rng.random() < .15: more['force_preblur'] = True
    if rng.random() < .3: more['wmin'] = -rng.choice([5.5, 7, 9.25])
    return dict(more=more, size=size, ntasks=size + rng.choice([0, 1, 2, 3, 5, size]), kind=kind, n_fit=nf, n_mat=nf + rng.choice([0, 0, 3, -2]),
                nwr=rng.choice([40, 41, 51, 60]), mesh=rng.choice(['tan', 'linear', 'lorentzian', 'hyperbolic']), bw=rng.choice([0.0, 0.0, 0.1]),
                wmax=rng.choice([6, 8, 10]), beta=rng.choice([3.0, 4.0, 6.0, 3.337]), err=rng.choice([1e-3, 1e-2]), seed=rng.randrange(10 ** 6),
                real=rng.random() < .4, policy=rng.choice(core.POLICIES[:5]))


def distributed(case, choices, root, mat, fail, r):
    from dga import analytic_continuation as ac
    from dga import mpi_aux

    def fn(comm):
        d = mpi_aux.MpiDistributor(ntasks=case['ntasks'], comm=comm, name='X')
        me = ac.MaxEnt(case['beta'], case['kind'], comm=comm, me_config=settings(case))
        return ac.mpi_ana_cont(mat.copy() if comm.rank == 0 else None, me, d, 'x')
    with warnings.catch_warnings(), inject(mat, fail) as inj:
        warnings.simplefilter('ignore')
        w = job(case, choices, root, case['size'], fn, res=r)
    return w, inj


def shrink_me(case):
    out = []
    for s in range(1, case['size']):
        out.append(dict(case, size=s))
    for n in (case['size'], case['ntasks'] - 1):
        if case['size'] <= n < case['ntasks']: out.append(dict(case, ntasks=n))
    if case['policy'] != 'seq': out.append(dict(case, policy='seq'))
    for k, v in (('mesh', 'tan'), ('bw', 0.0), ('kind', 'freq_fermionic')):
        if case[k] != v: out.append(dict(case, **{k: v}))
    if case.get('fail'):
        for k in list(case['fail']):
            out.append(dict(case, fail={a: b for a, b in case['fail'].items() if a != k}))
    for c in out:
        if 'fail' in c: c['fail'] = {a: b for a, b in c['fail'].items() if int(a) < c['ntasks']}
    return out


# ------------------------------------------- the post-processing program on a finished DGA run -----------------------
QUANT = {'s_dga': ('MaxEntSiwk', 'swk_dga', 'freq_fermionic'), 'g_dga': ('MaxEntGiwk', 'gwk_dga', 'freq_fermionic'),
         'chi_d': ('MaxEntChiDens', 'chi_dens', 'freq_bosonic'), 'chi_m': ('MaxEntChiMagn', 'chi_magn', 'freq_bosonic')}


def gen_mejob(rng, lattices=True):
    c = gen_dga(rng)
    c['symmetries'] = rng.choice(['two_dimensional_square'] * 4 + ['quasi_one_dimensional_square', 'none'])
    c['opts'].update(pairing=False, eliash=False, optics_b=False, optics_v=False, save_fq=False, save_vrg=False, poly=False,
                     lambda_corr=rng.choice(['spch', 'sp']), verbosity=0)
    b = c['box'] = dict(niw_core=rng.choice([4, 5]), niv_core=rng.choice([4, 5]), niv_shell=rng.choice([0, 2, 4]))
    c['niw_in'], c['niv_in'] = b['niw_core'], b['niv_core'] + (0 if c.get('inf_box') else b['niv_shell'] + 1)
    hi = {'two_dimensional_square': 6, 'quasi_one_dimensional_square': 9, 'none': 16}[c['symmetries']]
    c['ranks'] = rng.choice([2, 3, 4, 5, 6] + [r for r in (7, 9) if r <= hi])
    if lattices and rng.random() < .25: vary_lattice(rng, c)
    if lattices and rng.random() < .1: list_symmetries(rng, c)
    me = dict(nwr=rng.choice([40, 41, 51]), wmax=10, wmin=-10, n_fit=rng.choice([4, 4, b['niw_core'] + 1]), mesh_type=rng.choice(['tan', 'tan', 'linear', 'hyperbolic', 'lorentzian']),
              bw=rng.choice([0.0, 0.1]), alpha_start=1e6, alpha_end=1.0)
    for q in QUANT:
        if rng.random() < .6:
            me[q] = dict(do_cont=rng.random() < .9)
            if rng.random() < .3: me[q]['n_fit'] = 3 + rng.randrange(2)
            if rng.random() < .2: me[q]['err'] = 1e-2
            if rng.random() < .2: me[q]['nwr'] = rng.choice([30, 35])
            if rng.random() < .15: me[q]['mesh_type'] = rng.choice(['tan', 'linear'])
            if rng.random() < .15: me[q]['bw'] = rng.choice([0.0, 0.2])
    if rng.random() < .3: me.update(wmax=round(rng.uniform(8, 12), 2), wmin=-round(rng.uniform(8, 12), 2))
    if rng.random() < .35:
        m = more_settings(rng)
        if c['symmetries'] != 'two_dimensional_square' or rng.random() < .5: m.pop('alpha_det_method', 0)  # (slow)
        if rng.random() < .5 and 'alpha_det_method' not in m: me.update(m)
        else:
            for q in QUANT:
                if q in me and rng.random() < .6:
                    me[q].update(m)
                    m.pop('alpha_det_method', 0)
        if rng.random() < .2 and 'chi_m' in me: me['chi_m']['force_preblur'] = True
    if rng.random() < .3:
        me['loc'] = dict(do_cont=True)
        me['bw_range_loc'] = [0.1, 0.3]
    if not any(q in me for q in QUANT): me['chi_m'] = dict(do_cont=True)
    c['max_ent_later'] = me
    return c


def finished_run(case, root):
    '''A completed one-rank DGA run with the continuation section added to the configuration kept in its output.'''
    from ruamel.yaml import YAML
    o = dgarun.run_dga(dict(case, policy='seq', ranks=1), root, [])
    if not o.ok: return None, f'{o.errors} {(o.tb or [""])[0]}'[-1200:]
    d = os.path.join(o.path, dgarun.find_output_dirs(o.path)[0]) + '/'
    with open(d + 'dga_config.yaml') as f: conf = YAML().load(f)
    conf['max_ent'] = case['max_ent_later']
    with open(d + 'dga_config.yaml', 'w') as f: YAML().dump(conf, f)
    return d, None


def siw_parts(s, n, beta):
    '''Positive-frequency self-energy of n frequencies: the written ones, beyond them constant + 1/iv fitted to the last of them.'''
    h = s.shape[-1] // 2
    s = s[..., h:]
    m = max(4, int(.2 * h))
    v = np.pi / beta * (2 * np.arange(max(n, h)) + 1)
    tail = np.mean(s[..., -m:], axis=(0, 1, 2))
    s0, s1 = np.mean(tail.real), np.mean(tail.imag * v[h - len(tail):h])
    if n > h: s = np.concatenate((s, np.ones(s.shape[:3] + (1,)) * (s0 + 1j * s1 / v[h:])), axis=-1)
    return s[..., :n], v[:n], s0, h


def cont_data(x, q, n, case, ek):
    '''The imaginary-axis data (positive frequencies) the quantity q is continued from, and the constant added afterwards.'''
    from scipy.optimize import brentq
    beta, fill = case['beta'], case['n']
    if q == 'chi_d': return np.asarray(x['chi_dens_lam.npy']), 0., False
    if q == 'chi_m': return np.asarray(x['chi_magn_lam.npy']), 0., False
    s, v, s0, h = siw_parts(np.asarray(x['siwk_dga.npy']), n, beta)
    if q == 's_dga': return s - s0, s0, True
    sc, vc, _, _ = siw_parts(np.asarray(x['siwk_dga.npy']), h, beta)

    def diff(mu):
        g = np.mean(1 / (1j * vc + mu - ek[..., None] - sc), axis=(0, 1, 2)) - 1 / (1j * vc + mu - np.mean(ek) - s0)
        return 2 / (1 + np.exp(beta * (s0 + np.mean(ek) - mu))) + 4 * np.sum(g).real / beta - fill
    return 1 / (1j * v + brentq(diff, -60, 60, xtol=1e-10) - ek[..., None] - s), 0., True
