'''C20: the Eliashberg step ends, and what it reports are leading eigenpairs of the linearised gap equation of the written
pairing vertex, whatever the random start, the number of ranks and the schedule.'''
from .dgabase import *  # noqa


def operator(f_pp, gk, beta, sym):
    '''Dense gap equation  (A D)(k,v) = -T/N sum_{k',v'} F(k'-k, v, v') |G(k',v')|^2 D(k',v').'''
    nk = f_pp.shape[:3]
    n = int(np.prod(nk))
    nv = f_pp.shape[-1]
    gam = -f_pp
    if sym == 'sing': gam = 0.5 * (gam + gam[..., ::-1])
    if sym == 'trip': gam = 0.5 * (gam - gam[..., ::-1])
    idx = np.array(np.unravel_index(np.arange(n), nk))
    q = (idx[:, None, :] - idx[:, :, None]) % np.array(nk)[:, None, None]  # [:, k, k'] = k'-k
    blk = gam[q[0], q[1], q[2]]  # [k, k', v, v']
    g2 = np.abs(gk.reshape(n, -1)) ** 2
    a = np.transpose(blk, (0, 2, 1, 3)) * g2[None, None]
    return a.reshape(n * nv, n * nv) / (n * beta)


class C20(DgaCheck):
    id = 'C20'
    quick_s = 25
    thorough_s = 500
    case_timeout = 30.
    need = dict(pairing=True, eliash=True, keep_pairing=True)
    rule = ('A case is a random system with pairing vertex and Eliashberg step on N ranks, a random or symmetric start, one to three '
            'eigenvalues, tight or loose tolerance and a small or large iteration bound; non-trivial when the spectrum allows a judgement '
            '(the bound suffices for convergence).')
    assumptions = ['further gap functions (and third eigenvalues) are judged where the gap equation is hermitian with the weight |G|^2 (always so without symmetrisation)',
                   'convergence is only expected where the distance to the next eigenvalue allows it within max_count iterations']

    def tune(self, rng, c):
        o = c['opts']
        o['optics_b'] = o['optics_v'] = o['poly'] = False
        o['verbosity'] = rng.choice([0, 0, 1])
        o['n_eig'] = rng.choice([1, 2, 2, 3, 3])
        if not c.get('hop') and rng.random() < .4: vary_lattice(rng, c)
        o['k_sym'] = rng.choice(['random', 'random', 'd-wave', 'p-wave-x', 'p-wave-y'])
        o['eps'] = rng.choice([1e-12, 1e-12, 1e-13, 1e-13, 1e-11, 1e-4])
        o['max_count'] = rng.choice([20000, 20000, 20000, 20000, 20000, 6000, 1, 20])
        if rng.random() < .06: o['eps'], o['max_count'] = 0.0, rng.choice([30, 100])  # never converges: ends at the bound
        o['sym_sing'], o['sym_trip'] = rng.random() < .6, rng.random() < .6
        if rng.random() < .5: c['u'] = rng.choice([2., 2.5, 3.])
        c['gam_noise'] = rng.choice([.05, .15, .3])
        if rng.random() < .3: c['beta'] = rng.choice([6., 8.])

    def run(self, case, choices, root):
        r = Res()
        r.nontrivial = False
        o = dgarun.run_dga(case, root, choices)
        r.add_world(o.world)
        r.choices = o.world.ch.rec
        if o.world.verdicts: return r
        if not o.ok:
            r.bad('run-failed', f'{o.errors} {o.orphaned or ""} {(o.tb or [""])[0] or ""}'[-1400:])
            return r
        d = os.path.join(o.path, dgarun.find_output_dirs(o.path)[0])
        out = dgarun.collect(d)
        el = out.get('Eliashberg/eliashberg.npy')
        if not isinstance(el, dict): return r.bad('missing', f'eliashberg.npy: {el!r:.200}') or r
        txt = np.array([float(x) for x in out['Eliashberg/eigenvalues.txt'].replace(',', ' ').split()]).reshape(2, -1)
        txs = np.array([float(x) for x in out['Eliashberg/eigenvalues_s.txt'].replace(',', ' ').split()]).reshape(2)
        op = case['opts']
        for i, ch in enumerate(('sing', 'trip')):
            f = np.asarray(out[f'Eliashberg/F_{ch}_pp.npy'])
            g = np.asarray(out['giwk_dga.npy'])
            nv = f.shape[-1]
            h = g.shape[-1] // 2
            a = operator(f, g[..., h - nv // 2:h + nv // 2], case['beta'], ch if op['sym_' + ch] else None)
            lam, gap = np.asarray(el['lambda_' + ch]), np.asarray(el['delta_' + ch])
            if lam.shape != (op['n_eig'],) or gap.shape != (op['n_eig'],) + f.shape[:3] + (nv,):
                return r.bad('shape', f'{ch}: {lam.shape} {gap.shape}') or r
            if dgarun.same(txt[i], lam.real, 0, 2e-9): return r.bad('text', f'{ch}: eigenvalues.txt {txt[i]} but eliashberg.npy {lam}') or r
            ev = np.linalg.eigvals(a)
            if np.max(np.abs(ev.imag)) > 1e-6 * np.max(np.abs(ev)):
                r.info['complex-spectrum'] = r.info.get('complex-spectrum', 0) + 1
                continue
            ev = np.sort(ev.real)[::-1]
            big = np.max(np.abs(ev))
            lam_s = ev[-1] if -ev[-1] > ev[0] else 0.
            it, eps = op['max_count'], op['eps']

            def ratio(x):
                '''second over first magnitude, degenerate leading values counted once'''
                x = np.abs(x)
                top = x.max()
                rest = x[x < top * (1 - 1e-7)]
                return (rest.max() if len(rest) else 0.) / top
            r.states.append(f'{ch}/{op["k_sym"]}/{lam_s < 0}/{op["n_eig"]}')
            r1 = ratio(ev)

            def enough(q): return (1 - q) * q ** it < 1e-8 and eps <= 1e-8 and eps / (1 - q) < 1e-6 * big
            if not enough(r1):
                r.info['not-converged'] = r.info.get('not-converged', 0) + 1
                continue
            if abs(txs[i] - lam_s) > 1e-5 * big + 2e-9:
                return r.bad('shift', f'{ch}: eigenvalues_s.txt has {txs[i]}, the eigenvalue of largest magnitude gives {lam_s}; spectrum {ev[:2]} ... {ev[-2:]}') or r
            if not enough(ratio(ev - lam_s)):
                r.info['not-converged'] = r.info.get('not-converged', 0) + 1
                continue
            r.nontrivial = True
            r.info['judged'] = r.info.get('judged', 0) + 1
            v = gap[0].reshape(-1)
            lead = ev[0] if lam_s < 0 else ev[np.argmax(np.abs(ev))]
            if op['k_sym'] == 'random':
                if abs(lam[0] - lead) > 1e-5 * big:
                    return r.bad('leading', f'{ch}: reported {lam[0]}, the leading eigenvalue is {lead}; spectrum {ev[:3]} ... {ev[-2:]}') or r
                res = np.linalg.norm(a @ v - lam[0] * v) / (big * np.linalg.norm(v))
                if ratio(ev - lam_s) ** it < 1e-6 and not res < 3e-3: return r.bad('gap', f'{ch}: the gap function is not an eigenvector (residual {res:.2e})') or r
                if op['n_eig'] > 1:
                    sq = np.abs(g[..., h - nv // 2:h + nv // 2]).reshape(-1)
                    sa = sq[:, None] * a / sq
                    hermitian = np.max(np.abs(sa - sa.conj().T)) < 1e-6 * np.max(np.abs(sa))
                    al = ev[np.argsort(-np.abs(ev - lam_s), kind='stable')]
                    x = np.abs(al - lam_s)
                    # the same start finds a degenerate value once (or, by rounding, again)
                    new = [0] + [k for k in range(1, len(al)) if x[k - 1] - x[k] > x[0] * 1e-7]
                    for j in range(1, op['n_eig']):
                        if len(new) < j + 2 or (j > 1 and not hermitian) or not enough(x[new[j]] / x[new[j - 1]]) or not enough(x[new[j + 1]] / x[new[j]]): break
                        free = [al[k] for k in range(new[j] + 1)]
                        for m in range(j):
                            k = int(np.argmin(np.abs(np.array(free) - lam[m])))
                            if abs(free[k] - lam[m]) < 1e-4 * big: free.pop(k)
                        if np.min(np.abs(lam[j] - np.array(free))) > 1e-4 * big:
                            return r.bad('second', f'{ch}: number {j + 1} reported {lam[j]}, expected {al[new[j]]}; spectrum {ev[:4]}') or r
                        r.info[f'number-{j + 1}'] = r.info.get(f'number-{j + 1}', 0) + 1
                        w = gap[j].reshape(-1)
                        res = np.linalg.norm(a @ w - lam[j] * w) / (x[new[j]] * np.linalg.norm(w))
                        if hermitian and x[new[j]] > 1e-3 * x[0] and (x[new[j + 1]] / x[new[j]]) ** it < 1e-6:
                            r.info['gaps'] = r.info.get('gaps', 0) + 1
                            if not res < 2e-4: return r.bad('further-gap', f'{ch}: gap function number {j + 1} is not a solution (residual {res:.2e})') or r
            else:
                if lam[0].real > lead + 1e-5 * big and lam_s <= 0 and lead > 0: return r.bad('too-large', f'{ch}: {lam[0]} exceeds the largest eigenvalue {lead}') or r
                res = np.linalg.norm(a @ v - lam[0] * v) / (big * np.linalg.norm(v))
                if res < 1e-3:
                    r.info['sector-judged'] = r.info.get('sector-judged', 0) + 1
                    if np.min(np.abs(ev - lam[0])) > 1e-4 * big: return r.bad('not-an-eigenvalue', f'{ch}: {lam[0]} with start {op["k_sym"]}; spectrum {ev[:3]}') or r
        return r

    def shrink(self, case):
        out = super().shrink(case)
        o = case['opts']
        if o['n_eig'] > 1: out.append(dict(case, opts=dict(o, n_eig=1)))
        if o['verbosity']: out.append(dict(case, opts=dict(o, verbosity=0)))
        return out


CHECK = C20()
