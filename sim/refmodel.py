'''A small executable reference of the ladder-DGA equations: plain numpy on the full Brillouin zone, no distribution, no
symmetry reduction, no rank files, and no code of the repository.'''
import numpy as np

from .inputs import ek_of, light_of


def _mid(a):
    return a.shape[-1] // 2


class Ref:
    def __init__(self, case, dd):
        b = case['box']
        self.niw, self.niv, self.nsh = b['niw_core'], b['niv_core'], b['niv_shell']
        self.nf = self.niv + self.nsh
        self.beta, self.u, self.n = float(dd['beta']), float(dd['u']), float(dd['n'])
        self.nk = tuple(case['nk'])
        self.case = case
        self.ek = ek_of(case)
        self.siw = dd['siw']
        nv = self.siw.size // 2
        self.ng = nv
        v = np.pi / self.beta * (2 * np.arange(-nv, nv) + 1)
        self.v = v
        self.gk = 1 / (1j * v + dd['mu_dmft'] - self.ek[..., None] - self.siw)
        self.gloc = self.gk.mean(axis=(0, 1, 2))
        self.sym = case['opts'].get('sym_v_vp', True)
        self.g2 = {}
        for ch in ('dens', 'magn'):
            g = np.array(dd['g4iw_' + ch])
            mw, mv = g.shape[0] // 2, g.shape[-1] // 2
            g = g[mw - self.niw:mw + self.niw + 1, mv - self.niv:mv + self.niv, mv - self.niv:mv + self.niv]
            if self.sym: g = 0.5 * (g + np.swapaxes(g, 1, 2))
            self.g2[ch] = g
        self.w = range(-self.niw, self.niw + 1)
        self.ur = {'dens': self.u, 'magn': -self.u}
        self.qs = [(i, j, l) for i in range(self.nk[0]) for j in range(self.nk[1]) for l in range(self.nk[2])]

    def win(self, g, n, w=0):
        m = g.shape[-1] // 2
        return g[..., m - n - w:m + n - w]

    def local(self):
        be, nv, nf = self.beta, self.niv, self.nf
        self.g0loc = np.array([-be * self.win(self.gloc, nf) * self.win(self.gloc, nf, w) for w in self.w])
        s = slice(nf - nv, nf + nv)
        self.gamma, self.chi_loc, vrg = {}, {}, {}
        sde = np.zeros(2 * nf, complex) + self.u * self.n / 2
        gg = self.win(self.gloc, nv)
        for ch in ('dens', 'magn'):
            ur = self.ur[ch]
            gam = np.zeros((2 * self.niw + 1, 2 * nv, 2 * nv), complex)
            chi = np.zeros(2 * self.niw + 1, complex)
            vr = np.zeros((2 * self.niw + 1, 2 * nv), complex)
            for i, w in enumerate(self.w):
                x = be * self.g2[ch][i].copy()
                if ch == 'dens' and w == 0: x = x - be * 2 * gg[:, None] * gg[None, :]
                t = np.linalg.inv(ur / be ** 2 + np.diag(1 / self.g0loc[i]))[s, s]
                gam[i] = np.linalg.inv(x) - np.linalg.inv(t) + ur / be ** 2
                chi[i], vr[i] = self.ladder(gam[i], self.g0loc[i][s], self.g0loc[i].sum() / be ** 2,
                                            self.g0loc[i][s].sum() / be ** 2, ur)[:2]
                gw = self.win(self.gloc, nf, w)
                sde[s] += ur / 2 / be * (1 - (1 - ur * chi[i]) * vr[i]) * gw[s]
                if self.nsh:
                    m = np.ones(2 * nf, bool)
                    m[s] = False
                    sde[m] += self.u / 2 / be * self.u * chi[i] * gw[m]
            self.gamma[ch], self.chi_loc[ch], vrg[ch] = gam, chi, vr
        self.sde = sde

    def ladder(self, gam, g0c, chi0_u, chi0_c, ur):
        be = self.beta
        aux = np.linalg.inv(np.diag(1 / g0c) + gam - ur / be ** 2)
        chi_aux = aux.sum() / be ** 2
        chi = 1 / (1 / (chi_aux + chi0_u - chi0_c) + ur)
        return chi, aux.sum(axis=-1) / g0c, aux

    def nonlocal_(self):
        be, nv, nf, nw = self.beta, self.niv, self.nf, 2 * self.niw + 1
        s = slice(nf - nv, nf + nv)
        nq = len(self.qs)
        self.chi_lad = {c: np.zeros((nq, nw), complex) for c in ('dens', 'magn')}
        self.vrg = {c: np.zeros((nq, nw, 2 * nv), complex) for c in ('dens', 'magn')}
        self.f1 = {c: np.zeros((nq, nw, 2 * nv, 2 * nv), complex) for c in ('dens', 'magn')}
        self.f2 = {c: np.zeros((nq, nw, 2 * nv, 2 * nv), complex) for c in ('dens', 'magn')}
        self.kdc = np.zeros((nq, nw, 2 * nv), complex)
        um = self.ur['magn']
        fdc = []
        for i in range(nw):
            gu = np.full((2 * nf, 2 * nf), um / be ** 2, complex)
            gu[s, s] = self.gamma['magn'][i]
            fdc.append(gu @ np.linalg.inv(np.eye(2 * nf) + np.diag(self.g0loc[i]) @ gu))
        for iq, q in enumerate(self.qs):
            gkq = np.roll(self.gk, q, axis=(0, 1, 2))
            for i, w in enumerate(self.w):
                g0 = -be * (self.win(self.gk, nf) * self.win(gkq, nf, w)).mean(axis=(0, 1, 2))
                self.kdc[iq, i] = (um * (fdc[i] @ g0))[s]
                for ch in ('dens', 'magn'):
                    ur = self.ur[ch]
                    c, v, aux = self.ladder(self.gamma[ch][i], g0[s], g0.sum() / be ** 2, g0[s].sum() / be ** 2, ur)
                    self.chi_lad[ch][iq, i], self.vrg[ch][iq, i] = c, v
                    self.f1[ch][iq, i] = be ** 2 / g0[s][:, None] * (np.eye(2 * nv) - aux / g0[s][None, :])
                    self.f2[ch][iq, i] = ur * v[:, None] * v[None, :]

    def lam(self, mode):
        '''Lambda from its defining sum rule, by bracketing to the right of the pole.'''
        be = self.beta

        def solve(chi, target):
            w0 = chi.shape[-1] // 2
            lo = -np.min((1 / chi[:, w0].real))
            f = lambda l: (np.sum(1 / (1 / chi + l)) / (be * chi.shape[0])).real - target.real
            d = 1e-9
            a = lo + d
            b = lo + 1.0
            while f(b) > 0 and b < 1e6: b = lo + (b - lo) * 2
            if f(a) < 0: return None
            for _ in range(200):
                m = 0.5 * (a + b)
                if f(m) > 0: a = m
                else: b = m
            return 0.5 * (a + b)
        cd, cm = self.chi_lad['dens'], self.chi_lad['magn']
        sd, sm = self.chi_loc['dens'].sum() / be, self.chi_loc['magn'].sum() / be
        if mode == 'none': return 0.0, 0.0
        if mode == 'spch': return solve(cd, sd), solve(cm, sm)
        return 0.0, solve(cm, sm + sd - cd.sum() / (be * cd.shape[0]))

    def apply_lambda(self, ld, lm):
        self.chi_lam = {'dens': 1 / (1 / self.chi_lad['dens'] + ld), 'magn': 1 / (1 / self.chi_lad['magn'] + lm)}

    def mesh(self, a):
        return a.reshape(self.nk + a.shape[1:])

    def sigma(self):
        be, nv, nq = self.beta, self.niv, len(self.qs)
        ker = -self.kdc.copy()
        for ch, fac in (('dens', 1), ('magn', 3)):
            ur = self.ur[ch]
            ker += fac * ur / 2 * (1 - (1 - ur * self.chi_lam[ch])[..., None] * self.vrg[ch])
        out = np.zeros(self.nk + (2 * nv,), complex)
        for iq, q in enumerate(self.qs):
            gkq = np.roll(self.gk, q, axis=(0, 1, 2))
            for i, w in enumerate(self.w):
                out += ker[iq, i] * self.win(gkq, nv, w)
        out = out / (nq * be)
        s = slice(self.nf - nv, self.nf + nv)
        return out + self.win(self.siw, nv) - self.sde[s] + self.u * self.n / 2

    def f_full(self, ch):
        return self.mesh(self.f1[ch] + (1 - self.ur[ch] * self.chi_lam[ch])[..., None, None] * self.f2[ch])

    def pairing(self):
        npp = min(self.niw // 2, self.niv // 2)
        m = {}
        for ch in ('dens', 'magn'):
            acc = np.zeros((len(self.qs), 2 * npp, 2 * npp), complex)
            for src, isf2 in ((self.f1[ch], False), (self.f2[ch], True)):
                x = np.zeros_like(acc)
                for a in range(2 * npp):
                    for c in range(2 * npp):
                        w = a - c
                        va, vc = self.niv - npp + a, self.niv - npp + c
                        x[:, a, c] = -src[:, self.niw + w, va, 2 * self.niv - 1 - vc]
                x = 0.5 * (x + np.conj(self._condT(x, npp)))
                if isf2:
                    for a in range(2 * npp):
                        for c in range(2 * npp):
                            x[:, a, c] *= (1 - self.ur[ch] * self.chi_lam[ch][:, self.niw + a - c])
                acc += x
            m[ch] = self.mesh(acc)
        return 1.5 * m['magn'] - 0.5 * m['dens'], 0.5 * m['magn'] + 0.5 * m['dens']

    @staticmethod
    def _condT(x, npp):
        '''The partner entry used by the symmetrisation: the k-th entry (row order) of the diagonal v-v'=w is added,
        conjugated, to the k-th entry of the diagonal v'-v=w.'''
        n = 2 * npp
        out = np.zeros_like(x)
        for w in range(-n + 1, n):
            src = [(a, a - w) for a in range(n) if 0 <= a - w < n]
            dst = [(a, a + w) for a in range(n) if 0 <= a + w < n]
            for (a, c), (d, e) in zip(src, dst): out[:, d, e] = x[:, a, c]
        return out

    def f_cond(self, niw_cond, niw_vert):
        nvv = self.niv - niw_cond
        out = np.zeros((len(self.qs), 2 * niw_vert + 1, niw_cond + 1, 2 * nvv), complex)
        sl = slice(self.niw - niw_vert, self.niw + niw_vert + 1)
        for ch, fac in (('dens', -0.5), ('magn', -1.5)):
            f = (self.f1[ch] + (1 - self.ur[ch] * self.chi_lam[ch])[..., None, None] * self.f2[ch])[:, sl]
            for w in range(niw_cond + 1):
                for a in range(2 * nvv):
                    v = self.niv - nvv + a
                    out[:, :, w, a] += fac * f[:, :, v - w, v]
        return out

    def light(self, der):
        return light_of(self.case, der)

    def chijj_bubble(self, gk, la, lb, ws, niv_sum):
        return np.array([-2 / self.beta * np.mean(la * lb * np.sum(self.win(gk, niv_sum) * self.win(gk, niv_sum, w), axis=-1))
                         for w in ws])

    def chijj_vert(self, gk, fc, la, lb, niw_cond, niw_vert):
        nvv = fc.shape[-1] // 2
        out = np.zeros(niw_cond + 1, complex)
        nkt = len(self.qs)
        for w in range(niw_cond + 1):
            for iq, q in enumerate(self.qs):
                lbq, gq = np.roll(lb, q, axis=(0, 1, 2)), np.roll(gk, q, axis=(0, 1, 2))
                s = 0
                for j, wp in enumerate(range(-niw_vert, niw_vert + 1)):
                    s = s + self.win(gq, nvv, wp) * self.win(gq, nvv, wp + w) * fc[iq, j, w]
                out[w] += np.sum(np.mean((la * lbq)[..., None] * self.win(gk, nvv, w) * self.win(gk, nvv) * s, axis=(0, 1, 2)))
        return -2 / (self.beta ** 2 * nkt) * out
