'''C22: what a job derives on the real axis follows from the continued data and the arrays of the same job.'''
from scipy.interpolate import interp1d

from .maxentbase import *  # noqa
from sim import refmodel


class C22(Check):
    id = 'C22'
    quick_s = 35
    thorough_s = 500
    batch = 2
    rule = ('A case is a continuation of a finished DGA output on N ranks (self-energy and local Green functions) or a DGA job which continues '
            'its optical conductivity itself; non-trivial when derived results were compared.')
    assumptions = ['the vendored solver decides what a continuation is; rows where it amplifies rounding are skipped',
                   'the spectrum of the Green function is interpolated linearly between the mesh points']
    real_components = REAL_DGA + ', ana_cont (vendored solver)'
    stub_components = STUB

    def gen(self, rng, i, tier):
        c = gen_mejob(rng)
        if rng.random() < .35:
            c.pop('max_ent_later')
            o, b = c['opts'], c['box']
            b['niw_core'], b['niv_core'] = rng.choice([4, 5]), rng.choice([5, 6])
            b['niv_asympt'] = rng.choice([60, 100])
            c.pop('inf_box', None)
            c['niw_in'], c['niv_in'] = b['niw_core'], b['niv_core'] + b['niv_shell'] + 1
            o['optics_b'] = True
            o['optics_v'] = rng.random() < .4
            o['niw_cond'] = rng.choice([2, 3, 4])
            o['optics_me'] = dict(nwr=rng.choice([40, 41, 51]), wmax=rng.choice([10, 10, 11.3]), wmin=0, n_fit=rng.choice([-1, 2, 3, 20]), bw=0.0,
                                  mesh_type=rng.choice(['tan', 'linear', 'hyperbolic']), err=rng.choice([1e-3, 1e-2]), alpha_start=1e6, alpha_end=1.0)
            if rng.random() < .2: del o['optics_me']['n_fit']
            if rng.random() < .3: o['optics_me'].update(more_settings(rng))
            o['optics_me'].pop('alpha_det_method', None)  # (the 'classic' solver may give up on these data, and says so)
            if rng.random() < .4: o['der_a'], o['der_b'] = rng.choice([(0, 0), (1, 1)])
            c['ranks'] = min(c['ranks'], 4)
            return c
        me = {k: v for k, v in c['max_ent_later'].items() if k not in QUANT and k not in ('loc', 'bw_range_loc')}
        if rng.random() < .9: me['s_dga'] = dict(do_cont=True)
        if rng.random() < .4 or 's_dga' not in me:
            me['loc'] = dict(do_cont=True)
            me['bw_range_loc'] = rng.choice([[0.1], [0.05, 0.2]])
            if c.get('inf_box') or rng.random() < .3: me['n_fit'] = min(2 * (c['box']['niv_core'] + c['box']['niv_shell']), 18)
        me['nwr'] = rng.choice([30, 40, 41, 51, 60])
        c['max_ent_later'] = me
        return c

    def run(self, case, choices, root):
        r = Res()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            (self.later if 'max_ent_later' in case else self.optics)(case, choices, root, r)
        return r

    def later(self, case, choices, root, r):
        from dga import dga_max_ent
        a = os.path.join(root, 'a')
        os.makedirs(a)
        d, err = finished_run(case, a)
        r.worlds += 1
        if d is None: return r.bad('run-failed', err)
        w = job(case, choices, root, case['ranks'], lambda comm: dga_max_ent.main(d, comm), res=r)
        if r.violations: return
        if exc_text(w) or w.orphaned:
            return r.bad('job-failed', f'{exc_text(w)} {w.orphaned or ""} ' + ''.join(p.exc_tb or '' for p in w.procs)[-900:])
        x = dgarun.collect(d)
        me = case['max_ent_later']
        r.states.append(f'{case["ranks"]}/{me["mesh_type"]}/{me["nwr"]}')
        r.nontrivial = True
        if 's_dga' in me: self.green(r, case, x)
        if 'loc' in me and not r.violations: self.local(r, case, x, me)

    def green(self, r, case, x):
        f = 'MaxEntSiwk/'
        miss = [k for k in ('w.npy', 'swk_dga_cont_fbz.npy', 'gwk_dga_cont_fbz.npy', 'sigma_bub.npy', 'w_bub.npy') if f + k not in x]
        if miss: return r.bad('missing', f'{miss}')
        w, s, g = (np.asarray(x[f + k]) for k in ('w.npy', 'swk_dga_cont_fbz.npy', 'gwk_dga_cont_fbz.npy'))
        if not np.all(np.isfinite(s)):
            r.info['solver-not-finite'] = 1
            return
        ek = inputs.ek_of(case)[..., None]
        if g.shape != s.shape or g.shape != tuple(case['nk']) + w.shape: return r.bad('shape', f'{g.shape} {s.shape} {w.shape}')
        mus = 1 / g - w + ek + s - .04j
        mu = np.mean(mus).real
        if np.max(np.abs(mus - mu)) > 1e-7 * (1 + np.max(np.abs(s)) + np.max(np.abs(1 / g))):
            return r.bad('dyson', f'gwk_dga is not the Green function of swk_dga and one chemical potential ({np.max(np.abs(mus - mu)):.2e})')

        def fill(m):
            gl = np.mean(1 / (w + m - ek - s + .04j), axis=(0, 1, 2)).imag
            k = w <= 0
            return -2 / np.pi * np.trapz(gl[k], w[k])
        n = case['n']
        have = fill(mu)
        r.info['green'] = 1
        if abs(have - n) > 1e-4:
            # is the filling reached anywhere?
            sgn = np.sign(n - fill(0.))
            steps = [fill(sgn * k * (w[-1] - w[0]) / 100) for k in range(101)]
            if any((p - n) * (q - n) <= 0 for p, q in zip(steps, steps[1:])):
                return r.bad('filling', f'the real-frequency Green function holds {have} electrons, the system {n}')
            r.info['filling-out-of-reach'] = 1
            if abs(have - n) > min(abs(q - n) for q in steps) + 1e-2:
                r.info['filling-not-closest'] = 1
        # optical conductivity of the bubble
        sb, wb = np.asarray(x[f + 'sigma_bub.npy']), np.asarray(x[f + 'w_bub.npy'])
        i0, im = int(np.argmin(np.abs(w))), int(np.argmin(np.abs(w - w[-1] / 3)))
        wpos = w[i0 + 1:im]
        if wb.shape != (len(wpos) + 1,) or sb.shape != wb.shape or wb[0] != 0 or np.max(np.abs(wb[1:] - wpos)) > 1e-9:
            return r.bad('bubble-mesh', f'w_bub {wb[:3]} .. {wb[-1:]} ({wb.shape}), sigma_bub {sb.shape}')
        lam = inputs.light_of(case, 0) ** 2
        k = (w > w[0] + w[im] - 1e-10) & (w < w[-1] - w[im] + 1e-10)
        v, aw = w[k], -g[..., k].imag / np.pi
        nf = .5 * (1 - np.tanh(case['beta'] * v / 2))

        def at(y):
            y = np.clip(y, w[0], w[-1])
            j = np.clip(np.searchsorted(w, y) - 1, 0, len(w) - 2)
            t = (y - w[j]) / (w[j + 1] - w[j])
            return g[..., j] * (1 - t) + g[..., j + 1] * t
        chi = np.array([-2 * np.mean(lam * np.trapz(nf * aw * (at(v + y) + np.conj(at(v - y))), v, axis=-1)) for y in wpos])
        val = chi.imag / wpos
        want = interp1d(np.concatenate((-wpos[::-1], wpos)), np.concatenate((val[::-1], val)), kind='cubic')(np.concatenate(([0.], wpos)))
        r.info['bubble'] = 1
        if not np.max(np.abs(sb - want)) <= 1e-5 * np.max(np.abs(want)) + 1e-9:
            q = int(np.argmax(np.abs(sb - want)))
            r.bad('bubble', f'sigma_bub at w = {wb[q]:.3f} is {sb[q]}, the continued spectra give {want[q]}')

    def local(self, r, case, x, me):
        beta = case['beta']
        n = me['n_fit']
        ek = inputs.ek_of(case)[..., None]
        dd = np.load
        siw = np.asarray(x['dmft_input.npy']['siw']).ravel() if isinstance(x.get('dmft_input.npy'), dict) else inputs.dmft_input(case)['siw']
        h = len(siw) // 2
        v = np.pi / beta * (2 * np.arange(n) + 1)
        gd = np.mean(1 / (1j * v + case['u'] * case['n'] / 2 + case.get('dmu', 0.) - ek - siw[h:h + n]), axis=(0, 1, 2))
        gg, _, _ = cont_data(x, 'g_dga', n, case, ek[..., 0])
        gg = np.mean(gg, axis=(0, 1, 2))
        w = x.get('MaxEnt/w.npy')
        if w is None: return r.bad('missing', 'MaxEnt/w.npy')
        if w.shape != (me['nwr'],) and w.shape != (501,): return r.bad('mesh', f'local mesh of {w.shape} frequencies')
        for nm, y in (('dmft', gd), ('dga', gg)):
            for bw in me['bw_range_loc']:
                got = x.get(f'MaxEnt/{nm}_cont_bw{bw}.npy')
                if got is None: return r.bad('missing', f'{nm}_cont_bw{bw}')
                st = dict(n_fit=n, err=me.get('err', 1e-3), bw=bw, any_grid=1, alpha_start=1e9, alpha_end=1e-3)
                d = agrees(got, y, st, 'freq_fermionic', beta, True, info=r.info, grid=w)
                r.info['local'] = r.info.get('local', 0) + 1
                if d: return r.bad('local', f'{nm}, blur width {bw}: not the continuation of the local Green function: {d}')

    def optics(self, case, choices, root, r):
        o = dgarun.run_dga(case, root, choices)
        r.add_world(o.world)
        r.choices = o.world.ch.rec
        if r.violations: return
        if not o.ok: return r.bad('run-failed', f'{o.errors} {(o.tb or [""])[0]}'[-1200:])
        x = dgarun.collect(os.path.join(o.path, dgarun.find_output_dirs(o.path)[0]))
        st = case['opts']['optics_me']
        r.states.append(f'{case["ranks"]}/{st["mesh_type"]}/{st.get("n_fit")}/{case["opts"]["optics_v"]}')
        r.nontrivial = True
        bub = np.asarray(x['Optics/chijj_bubble.npy'])
        full = bub + (np.asarray(x['Optics/chijj_vert.npy']) if case['opts']['optics_v'] else 0)
        if 'n_fit' in st: st = dict(st, n_fit=case['opts']['niw_cond'] if st['n_fit'] == -1 else st['n_fit'])
        w = x.get('Optics/w.npy')
        for f, m in (('sigma_bubble_cont', bub), ('sigma_full_cont', full)):
            got = x.get(f'Optics/{f}.npy')
            if got is None or w is None: return r.bad('missing', f)
            d = agrees(got, m, st, 'freq_bosonic', case['beta'], info=r.info, grid=w)
            r.info['optics'] = r.info.get('optics', 0) + 1
            if d: return r.bad('optics', f'{f} is not the continuation of the written current correlation: {d}')
        if np.max(np.abs(w - w_mesh(st['mesh_type'], 0., st['wmax'], st['nwr']))) > 1e-9: r.bad('mesh', 'Optics/w.npy')

    def shrink(self, case):
        out = [c for c in shrink_common(case)]
        me = case.get('max_ent_later')
        if me and 'loc' in me and 's_dga' in me: out += [dict(case, max_ent_later={k: v for k, v in me.items() if k != q}) for q in ('loc', 's_dga')]
        return out


CHECK = C22()
