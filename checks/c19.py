'''C19: the summary numbers and fits of a job follow from the arrays written by the same job.'''
from .dgabase import *  # noqa


def num(s):
    return np.array([[float(x) for x in ln.replace(',', ' ').split()] for ln in s.splitlines() if ln.strip() and not ln.startswith('#')])


def extrapolate(y, v, n, deg):
    '''Value at zero of the polynomial through (or fitted to) the first n points.'''
    a = np.vander(v[:n], deg + 1)
    return np.linalg.lstsq(a, np.moveaxis(y[..., :n], -1, 0).reshape(n, -1), rcond=None)[0][-1].reshape(y.shape[:-1])


def fits(mat, beta, n=4, deg=3):
    h = mat.shape[-1] // 2
    y = mat[..., h:]
    v = np.pi / beta * (2 * np.arange(h) + 1)
    z = 1 / (1 - extrapolate(y.imag / v, v, n, deg))
    z = np.clip(z, 0, 1)
    z[z == 0] = 1
    return {'re_fs': extrapolate(y.real, v, n, deg), 'im_fs': -extrapolate(y.imag, v, n, deg), 'Z': z}


class C19(DgaCheck):
    id = 'C19'
    quick_s = 25
    rule = DgaCheck.rule

    def tune(self, rng, c):
        o = c['opts']
        if rng.random() < .35: c['u'], c['beta'] = rng.choice([4., 8., 12.]), rng.choice([5., 10., 20.])
        o['pairing'] = o['eliash'] = o['save_fq'] = o['save_vrg'] = False
        o['poly'] = rng.random() < .7
        if o['poly']: c['box']['niv_shell'] = max(c['box']['niv_shell'], 5 - c['box']['niv_core'])  # the fit needs its four frequencies
        o['optics_b'] = rng.random() < .7
        o['optics_v'] = o['optics_b'] and rng.random() < .2
        if rng.random() < .5: o['niw_cond'] = rng.randrange(1, min(c['box']['niw_core'], c['box']['niv_core'] - 1) + 1)
        if rng.random() < .3: o['niv_bubble'] = rng.choice([20, 50])
        if rng.random() < .4: o['der_a'], o['der_b'] = rng.choice([(0, 0), (0, 1), (1, 0), (1, 1)])
        if rng.random() < .3: c['sig_bend'] = [round(rng.uniform(.05, 1.6), 2) for _ in range(4)]
        if rng.random() < .4: c['box']['niv_asympt'] = rng.choice([60, 200, 1000])

    def judge(self, r, case, ref, out):
        n, beta, u = case['n'], case['beta'], case['u']
        try:
            g, s = np.asarray(out['giwk_dga.npy']), np.asarray(out['siwk_dga.npy'])
            cd, cm = np.asarray(out['chi_dens_lam.npy']), np.asarray(out['chi_magn_lam.npy'])
            t = {k: num(out[k + '.txt']) for k in ('energies', 'mu', 'UniformStaticSusceptibility', 'oz_coeff')}
        except Exception as e:  # noqa
            return r.bad('missing', repr(e))
        ng, nf = g.shape[-1] // 2, s.shape[-1] // 2
        v = np.pi / beta * (2 * np.arange(-ng, ng) + 1)
        core = slice(ng - nf, ng + nf)
        ek = ref.ek[..., None]
        mus = 1 / g[..., core] - 1j * v[core] + ek + s
        mu = np.mean(mus).real
        if np.max(np.abs(mus - mu)) > 1e-8: return r.bad('dyson', f'giwk_dga and siwk_dga differ from the Dyson equation by {np.max(np.abs(mus - mu)):.2e}')
        self.num(r, 'mu', t['mu'].ravel(), [mu, u * n / 2 + case.get('dmu', 0.)], 2e-6)
        # filling: the sum over the written frequencies plus the tail of 1/(iv)
        sigf = 1j * v + mu - ek - 1 / g
        tail = 2 * sum_tail(g, v, beta)
        fill = 1 + 2 / beta * np.sum(np.mean(g, axis=(0, 1, 2))).real + tail
        # mu is found from the nf core frequencies: the order 1/v^4 beyond them is neglected
        gl = np.mean(g, axis=(0, 1, 2)).real
        m0 = np.mean(sigf[..., -1]).real  # static part of the self-energy
        model = (1 / (1j * v + mu - np.mean(ref.ek) - m0)).real
        rest = np.sum((gl - model)[:ng - nf]) * 4 / beta
        lim = 2e-3 + 3. / max(ng * beta, 1) + .2 * abs(rest)
        if ng < 200: lim, rest = lim + 1.5 * abs(rest), 0.
        if abs(fill - rest - n) > lim: r.bad('filling', f'the written Green function holds {fill} electrons, the system {n} (and {rest} +- {lim} beyond the box)')
        kin = np.sum(np.mean(ek * g, axis=(0, 1, 2))).real / beta
        if abs(m0 - u * n / 2) > .05 * u: r.bad('hartree', f'the self-energy tends to {m0}, expected {u * n / 2}')
        pot = np.sum(np.mean((sigf - m0) * g, axis=(0, 1, 2))).real / beta + m0 * n / 2
        e = t['energies'].ravel()
        self.num(r, 'energies', e[[0, 2]], [kin, pot], 2e-6)
        self.dmft(r, case, ref, e, ng, nf)
        # uniform static susceptibilities: the array entry plus the tail of the bubble, the same for both channels
        us = t['UniformStaticSusceptibility'].ravel()
        nw = cd.shape[-1] // 2
        a = np.array([cd[0, 0, 0, nw].real, cm[0, 0, 0, nw].real])
        corr = us - a
        if us.shape != (2,) or abs(corr[0] - corr[1]) > 3e-6 or abs(us[1] - us[0] - (a[1] - a[0])) > 3e-6:
            r.bad('uniform', f'UniformStaticSusceptibility {us}, arrays {a}')
        else:
            want, tol = self.bubble_tail(case, ref, nf)
            if abs(corr[0] - want) > tol + 2e-6: r.bad('uniform-tail', f'correction {corr[0]}, the bubble beyond {nf} frequencies holds {want} +- {tol}')
        self.oz(r, case, cm[..., nw].real, t['oz_coeff'].ravel())
        if case['opts']['poly']:
            for f, m, roll in (('Siwk_poly_cont_', s, True), ('Giwk_dga_poly_cont_', g, True)):
                got = out.get(f'PolyFits/{f}.npy')
                if not isinstance(got, dict): r.bad('poly-missing', f); continue
                if roll: m = np.roll(m, (m.shape[0] // 2, m.shape[1] // 2), axis=(0, 1))
                want = fits(m, beta)
                for k in want:
                    if k == 'Z' and f.startswith('G'): continue
                    self.num(r, f'{f}:{k}', np.asarray(got[k]).ravel(), want[k].ravel(), 1e-5 * (1 + np.max(np.abs(want[k]))))
            got = out.get('PolyFits/Siw_DMFT_polyfit.txt')
            w = fits(ref.siw[None], beta)
            self.num(r, 'Siw_DMFT_polyfit', num(got).ravel(), [w['re_fs'][0], w['im_fs'][0], w['Z'][0]], 2e-5)
        if case['opts']['optics_b']:
            o = case['opts']
            nc = o.get('niw_cond', case['box']['niw_core'] // 2)
            nb = o.get('niv_bubble', case['box'].get('niv_asympt', 5000) - 2 * nc)
            want = ref.chijj_bubble(g, ref.light(o.get('der_a', 0)), ref.light(o.get('der_b', 0)), range(nc + 1), nb) \
                if nb + nc <= ng else None
            got = out.get('Optics/chijj_bubble.npy')
            if got is None or np.shape(got) != (2 * nc + 1,): r.bad('bubble-shape', f'{np.shape(got)}')
            elif want is not None:
                r.info['bubble'] = 1
                full = np.concatenate((np.conj(want[:0:-1]), want))
                if np.max(np.abs(got - full)) > 1e-8 * (1e-3 + np.max(np.abs(full))): r.bad('bubble', f'{got} expected {full}')
            else: r.info['bubble-skipped'] = 1

    def num(self, r, name, got, want, tol):
        got, want = np.asarray(got, float), np.asarray(want, float)
        if got.shape != want.shape or not np.all(np.abs(got - want) <= tol):
            i = int(np.argmax(np.abs(got - want))) if got.shape == want.shape else 0
            r.bad(name, f'{name}: {got.ravel()[i] if got.size else None} expected {want.ravel()[i]} (entry {i}, shapes {got.shape} {want.shape})')

    @staticmethod
    def bubble_tail(case, ref, nf):
        '''-1/beta sum G(k,v)^2 beyond nf frequencies, G = 1/(iv - h - m/(iv)) up to the order 1/v^4; what is neglected.'''
        n, beta, u = case['n'], case['beta'], case['u']
        k = np.arange(nf, nf + 200000)
        v = np.pi / beta * (2 * k + 1)
        h2 = np.mean((ref.ek - case.get('dmu', 0.)) ** 2)
        m = u ** 2 * n / 2 * (1 - n / 2)
        a2, a4 = 2 / beta * np.sum(v ** -2.), 2 / beta * np.sum(v ** -4.) * (3 * h2 + 2 * m)
        return a2 - a4, .03 * a2 + .35 * a4

    def dmft(self, r, case, ref, e, ng, nf):
        '''The DMFT energies are those of the lattice Green function with the DMFT self-energy and chemical potential.'''
        n, beta, u = case['n'], case['beta'], case['u']
        hart = u * n / 2
        mom1 = u ** 2 * n / 2 * (1 - n / 2)
        h = len(ref.siw) // 2
        nn = 4000
        v = np.pi / beta * (2 * np.arange(nn) + 1)
        sig = hart + mom1 / (1j * v)
        sig[:h] = ref.siw[h:]
        ek = ref.ek.ravel()[:, None]

        def g_of(mu): return 1 / (1j * v + mu - ek - sig)

        def fill(mu):
            # tail: -(h-mu)/v^2 with h = ek + hartree
            t = np.mean(ek + hart - mu) * -1 / (np.pi ** 2 / beta ** 2) * (np.pi ** 2 / 8 - np.sum(1. / (2 * np.arange(nn) + 1) ** 2))
            return 1 + 4 / beta * (np.mean(np.sum(g_of(mu).real, axis=-1)) + t)
        mu = hart + case.get('dmu', 0.)
        gm = g_of(mu)
        # the sums stop at the frequencies of the DMFT Green function: as many beyond its core (20 to 60) as for the DGA one
        lo, hi = min(max(ng - nf, 0) + min(20, h), nn - 1), min(max(ng - nf, 0) + h, nn - 1)

        def between(val, cum, tol):
            c = cum[lo - 1:hi + 1]
            return np.min(c) - tol <= val <= np.max(c) + tol, f'{np.min(c)} .. {np.max(c)}'
        ok, w = between(e[1], 2 / beta * np.cumsum(np.mean(ek * gm, axis=0).real), 2e-3 * (1 + abs(e[1])))
        if not ok: r.bad('energies-dmft', f'kinetic DMFT energy {e[1]}, expected {w}')
        ok, w = between(e[3], 2 / beta * np.cumsum(np.mean((sig - hart) * gm, axis=0).real) + hart * fill(mu) / 2, .03 * u + 2e-3 * (1 + abs(e[3])))
        if not ok: r.bad('energies-dmft', f'potential DMFT energy {e[3]}, expected {w}')  # (the static part is fitted from the data)

    def oz(self, r, case, chi, got):
        from scipy.optimize import curve_fit
        k = [np.linspace(0, 2 * np.pi, n, endpoint=False) for n in case['nk']]
        d = ((k[0] - np.pi)[:, None, None] ** 2 + (k[1] - np.pi)[None, :, None] ** 2 + k[2][None, None, :] ** 2).ravel()

        def f(_, a, xi): return a / (xi ** -2 + d)

        def cost(p): return np.sum((f(None, *p) - chi.ravel()) ** 2)
        try:
            p, _ = curve_fit(f, None, chi.ravel(), p0=(np.max(chi), 2.))
        except Exception:  # noqa
            r.info['oz-fit-failed'] = 1
            return
        if got.shape != (2,): return r.bad('oz', f'{got}')
        if np.all(got == -1):
            r.info['oz-none'] = 1
            return
        if not cost(got) <= cost(p) * (1 + 1e-4) + 1e-8 * np.sum(chi ** 2):
            r.bad('oz', f'A, xi = {got} fit the written susceptibility with error {cost(got):.3e}, the best fit {p} with {cost(p):.3e}')


def sum_tail(g, v, beta):
    '''Electrons per spin beyond the written frequencies: Re G = -h/v^2 there.'''
    h = g.shape[-1] // 2
    gl = np.mean(g, axis=(0, 1, 2))
    hh = -(gl[-1].real) * v[-1] ** 2
    k = np.arange(h, h + 400000)
    return -2 * hh / beta * np.sum((beta / np.pi / (2 * k + 1)) ** 2)


CHECK = C19()
