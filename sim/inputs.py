'''Synthetic but internally consistent DMFT input for DGApy, built without any DGApy code.

Everything here is plain numpy on purpose: the same arrays feed the code under test and the reference model
(sim/refmodel.py), and neither may depend on the repository.
'''
import os

import numpy as np


def square_ek(nk, t, tp, tpp):
    kx = np.linspace(0, 2 * np.pi, nk[0], endpoint=False)[:, None, None]
    ky = np.linspace(0, 2 * np.pi, nk[1], endpoint=False)[None, :, None]
    kz = np.zeros(nk[2])[None, None, :]
    return (-2 * t * (np.cos(kx) + np.cos(ky)) - 4 * tp * np.cos(kx) * np.cos(ky)
            - 2 * tpp * (np.cos(2 * kx) + np.cos(2 * ky)) + 0 * kz)


def tb_hops(t, tp, tpp):
    out = []
    for r in ((1, 0), (-1, 0), (0, 1), (0, -1)): out.append(list(r) + [0, -t])
    for r in ((1, 1), (-1, 1), (1, -1), (-1, -1)): out.append(list(r) + [0, -tp])
    for r in ((2, 0), (-2, 0), (0, 2), (0, -2)): out.append(list(r) + [0, -tpp])
    return out


def hops_of(case):
    '''The hoppings [x, y, z, value] of a case: t, t', t'' or a list of its own (then the job reads a wannier90 file).'''
    return case.get('hop') or tb_hops(*case['hr'])


def fourier(nk, hops, weight=None):
    k = np.meshgrid(*[np.linspace(0, 2 * np.pi, n, endpoint=False) for n in nk], indexing='ij')
    out = np.zeros(tuple(nk), complex)
    for x, y, z, t in hops:
        out += t * np.exp(1j * (k[0] * x + k[1] * y + k[2] * z)) * (1 if weight is None else weight((x, y, z)))
    return out


def ek_of(case):
    if not case.get('hop'): return square_ek(case['nk'], *case['hr'])
    return fourier(case['nk'], case['hop']).real


def light_of(case, der):
    '''d e(k) / d k_der'''
    return fourier(case['nk'], hops_of(case), lambda r: 1j * r[der]).real


def vn(beta, n):
    return np.pi / beta * (2 * np.arange(-n, n) + 1)


def dmft_input(case):
    '''case: dict(nk, hr, beta, u, n, niw, niv, seed) -> dict in the repository's "default" npy layout.'''
    rng = np.random.RandomState(case['seed'])
    nk, beta, u, n = case['nk'], float(case['beta']), float(case['u']), float(case['n'])
    niw, niv = case['niw_in'], case['niv_in']
    niv_g = case.get('niv_g', 60)
    ek = square_ek(nk, *case['in_hr']) if case.get('in_hr') else ek_of(case)
    v = vn(beta, niv_g)
    # Hubbard-I like self-energy: Hartree + U^2 n/2 (1-n/2) / (iv + shift)
    shift = case.get('sig_shift', 0.3)
    siw = u * n / 2 + u ** 2 * n / 2 * (1 - n / 2) / (1j * v + shift + 1j * np.sign(v) * 0.5)
    if case.get('sig_bend'):  # statistical errors at the lowest frequencies
        for k, f in enumerate(case['sig_bend']):
            for j in (len(v) // 2 + k, len(v) // 2 - 1 - k): siw[j] = siw[j].real + 1j * f * siw[j].imag
    mu = u * n / 2 + case.get('dmu', 0.0)
    giw = np.mean(1 / (1j * v[None, None, None, :] + mu - ek[..., None] - siw), axis=(0, 1, 2))
    out = {'giw': giw, 'siw': siw, 'n': n, 'beta': beta, 'u': u, 'mu_dmft': mu}
    for chan, sign in (('dens', 1.), ('magn', -1.)):
        ur = sign * u
        # Gamma/beta^2: symmetric in (v,vp), Gamma(-w,-v,-vp) = conj Gamma(w,v,vp)
        base = rng.standard_normal((2 * niw + 1, 2 * niv, 2 * niv)) + 1j * rng.standard_normal((2 * niw + 1, 2 * niv, 2 * niv))
        base = 0.5 * (base + np.swapaxes(base, 1, 2))
        base = 0.5 * (base + np.conj(np.flip(base, axis=(0, 1, 2))))
        gam = ur / beta ** 2 * (1 + case.get('gam_noise', 0.15) * base)
        if case.get('g2_asym'):  # statistical errors that break the symmetry of v and vp
            e = np.random.RandomState(case['seed'] + len(chan)).standard_normal(base.shape)
            gam = gam + ur / beta ** 2 * case['g2_asym'] * .5 * (e + np.flip(e, axis=(0, 1, 2)))
        chi = np.zeros_like(gam)
        for iw in range(2 * niw + 1):
            w = iw - niw
            g0 = -beta * giw[niv_g - niv:niv_g + niv] * giw[niv_g - niv - w:niv_g + niv - w]
            chi[iw] = np.linalg.inv(np.diag(1 / g0) + gam[iw])
        g2 = chi / beta
        if chan == 'dens':
            gg = giw[niv_g - niv:niv_g + niv]
            g2[niw] += 2 * gg[:, None] * gg[None, :]
        out['g4iw_' + chan] = g2
    return out


def write_default(path, ddict):
    np.save(os.path.join(path, '1p-data.npy'), ddict, allow_pickle=True)


def write_ed(path, ddict):
    import h5py
    with h5py.File(os.path.join(path, '1p-data.hdf5'), 'w') as f:
        f['giw'] = ddict['giw']
        f['siw_hat'] = ddict['siw']
        f['config/totdens'] = ddict['n']
        f['config/beta'] = ddict['beta']
        f['config/U'] = ddict['u']
        f['dmft/mu'] = ddict['mu_dmft']
    with h5py.File(os.path.join(path, 'g4iw_sym.hdf5'), 'w') as f:
        f['g4iw_dens'] = ddict['g4iw_dens']
        f['g4iw_magn'] = ddict['g4iw_magn']


def spin_components(dd, noise=0.0, seed=0):
    '''The six worm components whose spin average is exactly (dens, magn); arrays [iwb, f, f'].'''
    d, m = dd['g4iw_dens'], dd['g4iw_magn']
    rng = np.random.RandomState(seed)

    def nz():
        return noise * np.max(np.abs(d)) * (rng.standard_normal(d.shape) + 1j * rng.standard_normal(d.shape))
    a, b, c = nz(), nz(), nz()
    uu, ud = 0.5 * (d + m), 0.5 * (d - m)
    return {1: uu + a, 16: uu - a, 4: ud + b, 13: ud - b, 7: m + c, 10: m - c}


def spin_average(comp):
    return {'dens': (comp[1] + comp[16] + comp[4] + comp[13]) / 2,
            'magn': (comp[1] + comp[16] - comp[4] - comp[13] + comp[7] + comp[10]) / 4}


def write_vertex(fp, dd, noise=0.0, seed=0):
    '''The raw file of a w2dynamics worm run.'''
    import h5py
    comp = spin_components(dd, noise, seed)
    with h5py.File(fp, 'w') as f:
        ax = f.create_group('.axes')
        ax['iwb-g4'] = np.arange(comp[1].shape[0])
        ax['iwf-g4'] = np.arange(comp[1].shape[1])
        for i, x in comp.items():
            # stored as (f, f', b); sym1b transposes the two fermionic axes once, the reader once more
            f[f'worm-last/ineq-001/g4iw-worm/{i:05}/value'] = np.moveaxis(x, 0, -1)
    return comp


def write_sym(fp, dd):
    import h5py
    with h5py.File(fp, 'w') as f:
        for ch in ('dens', 'magn'):
            for i, x in enumerate(dd['g4iw_' + ch]):
                f[f'ineq-001/{ch}/{i:05}/00001/value'] = x.T


def write_w2dyn_1p(fp, dd, split=0.0):
    import h5py
    with h5py.File(fp, 'w') as f:
        c = f.create_group('.config')
        c.attrs['general.beta'] = dd['beta']
        c.attrs['general.totdens'] = dd['n']
        c.attrs['atoms.1.udd'] = dd['u']
        f['dmft-last/mu/value'] = dd['mu_dmft']
        for k in ('giw', 'siw'):
            f[f'dmft-last/ineq-001/{k}/value'] = np.array([[dd[k] * (1 + split), dd[k] * (1 - split)]])


def write_w2dyn(path, dd):
    write_w2dyn_1p(os.path.join(path, '1p-data.hdf5'), dd, split=0.01)
    write_sym(os.path.join(path, 'g4iw_sym.hdf5'), dd)


def write_hr(fp, hops, rng_seed=0):
    '''The hoppings as a wannier90 file: shuffled R vectors, degeneracies, R vectors without hopping.'''
    rng = np.random.RandomState(rng_seed)
    el = {(0, 0, 0): 0.}
    for x, y, z, t in hops: el[(x, y, z)] = t
    for r in ((3, 0, 0), (-3, 0, 0), (2, 1, 0), (-2, -1, 0), (0, 0, 1), (0, 0, -1))[:2 * rng.randint(4)]: el.setdefault(r, 0.)
    keys = sorted(el)
    rng.shuffle(keys)
    keys = [tuple(int(x) for x in k) for k in keys]
    wt = [int(rng.choice([1, 1, 2, 4])) for _ in keys]
    with open(fp, 'w') as f:
        f.write('written for a test\n' if rng.rand() < .5 else '# written on 1Jan2020 at 12:00:00\n')
        f.write(f'{1:12d}\n{len(keys):12d}\n')
        for i in range(0, len(wt), 15): f.write(''.join(f'{x:5d}' for x in wt[i:i + 15]) + '\n')
        for k, x in zip(keys, wt):
            n = 6 if round(el[k] * x, 6) == el[k] * x else 16
            f.write('{:5d}{:5d}{:5d}{:5d}{:5d}{:{w}.{n}f}{:{w}.{n}f}\n'.format(*k, 1, 1, el[k] * x, 0., w=n + 6, n=n))
