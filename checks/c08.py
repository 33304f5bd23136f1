'''C08: local vertex, susceptibilities, lambda correction, self-energy and Green's function refine the reference model.'''
from .dgabase import *  # noqa


class C08(DgaCheck):
    id = 'C08'
    quick_s = 25

    def judge(self, r, case, ref, out):
        sh = case['box']['niv_shell']
        for c in ('dens', 'magn'):
            self.cmp(r, f'gamma_{c}', out.get(f'gamma_{c}.npy'), ref.gamma[c])
            self.cmp(r, f'chi_{c}_loc', out.get(f'chi_{c}_loc.npy'), ref.chi_loc[c])
        self.cmp(r, 'siw_sde_full', out.get('siw_sde_full.npy'), ref.sde)
        mode = case['opts']['lambda_corr']
        ld, lm = ref.lam(mode)
        lt = out.get('lambda.txt')
        if not isinstance(lt, str): return r.bad('lambda-missing', repr(lt))
        lt = [float(x) for x in lt.splitlines()[-1].split()]
        for nm, l, g in (('dens', ld, lt[0]), ('magn', lm, lt[1])):
            if l is None:
                r.info['no-lambda'] = 1
                continue
            if abs(l - g) > 5e-6 + 1e-4 * abs(l): r.bad('lambda', f'lambda_{nm} = {g}, the sum rule ({mode}) needs {l}')
        if ld is not None and lm is not None:
            ref.apply_lambda(ld, lm)
            for c in ('dens', 'magn'):
                tol = MESH_TOL if mode == 'none' or (mode == 'sp' and c == 'dens') else LAM_TOL
                self.cmp(r, f'chi_{c}_lam', out.get(f'chi_{c}_lam.npy'), ref.mesh(ref.chi_lam[c]), tol)
        try: self.chi_from_output(ref, out)
        except Exception as e: return r.bad('chi-missing', repr(e))
        if case['opts']['save_vrg']:
            idx = self.irr(ref, case)
            for c in ('dens', 'magn'):
                got = out.get(f'vrg_q_{c}.npy')
                if got is None: r.bad(f'vrg_q_{c}-missing', 'not written')
                elif idx is not None: self.cmp(r, f'vrg_q_{c}', got, ref.vrg[c][idx])
        s = out.get('siwk_dga.npy')
        if s is None or isinstance(s, Exception): return r.bad('siwk-missing', repr(s))
        sig = ref.sigma()
        core = s[..., sh:s.shape[-1] - sh]
        if not self.cmp(r, 'siwk_dga', core, sig): return
        if sh:
            nv = ref.niv
            dm = ref.win(ref.siw, nv + sh)
            self.cmp(r, 'siwk_dga-shell', np.concatenate((s[..., :sh], s[..., -sh:]), -1),
                     np.broadcast_to(np.concatenate((dm[:sh], dm[-sh:])), s.shape[:-1] + (2 * sh,)))
        g = out.get('giwk_dga.npy')
        if g is None or isinstance(g, Exception): return r.bad('giwk-missing', repr(g))
        mu = out.get('mu.txt')
        if not isinstance(mu, str): return r.bad('mu-missing', repr(mu))
        mu = float(mu.splitlines()[-1].split()[0])
        nf = s.shape[-1] // 2
        v = np.pi / ref.beta * (2 * np.arange(-nf, nf) + 1)
        gm = g.shape[-1] // 2
        want = 1 / (1j * v + mu - ref.ek[..., None] - s)
        self.cmp(r, 'giwk_dga', g[..., gm - nf:gm + nf], want, 1e-5)

    def irr(self, ref, case):
        sym = case.get('symmetries', 'two_dimensional_square')
        nk = case['nk']
        ind = np.arange(np.prod(nk)).reshape(nk)
        rep = {}
        idx = []
        if isinstance(sym, list): return [int(i) for i in np.unique(irr_map(nk, sym), return_index=True)[1]]
        for i, q in enumerate(ref.qs):
            if sym == 'simultaneous_x_y_inversion': return None
            orb = orbit(q, nk, sym)
            m = min(int(ind[p]) for p in orb)
            if m not in rep:
                rep[m] = 1
                idx.append(m)
        return sorted(idx)


CHECK = C08()
