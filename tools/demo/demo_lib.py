'''Small DGA jobs run with the real mpirun in a scratch directory.'''
import os
import shutil
import signal
import subprocess
import sys
import tempfile

import numpy as np

ENV = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', OMPI_ALLOW_RUN_AS_ROOT='1',
           OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none',
           OMPI_MCA_pml='ob1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_plm='isolated',
           OMPI_MCA_hwloc_base_binding_policy='none', PYTHONDONTWRITEBYTECODE='1', HDF5_USE_FILE_LOCKING='FALSE',
           PYTHONPATH=os.path.join(os.getcwd(), 'src'))
PY = '/opt/venv/bin/python'


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='dgademo-')
        ENV['MPLCONFIGDIR'] = ENV['HOME'] = self.d
        return self.d + '/'

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def dmft(niw=4, niv=7, nk=4, beta=3., u=1.5, n=.9, hr=(1., -.2, .1), seed=3, niv_g=60):
    rng = np.random.RandomState(seed)
    k = np.linspace(0, 2 * np.pi, nk, endpoint=False)
    kx, ky = k[:, None, None], k[None, :, None]
    ek = -2 * hr[0] * (np.cos(kx) + np.cos(ky)) - 4 * hr[1] * np.cos(kx) * np.cos(ky) - 2 * hr[2] * (np.cos(2 * kx) + np.cos(2 * ky))
    v = np.pi / beta * (2 * np.arange(-niv_g, niv_g) + 1)
    siw = u * n / 2 + u ** 2 * n / 2 * (1 - n / 2) / (1j * v + .3 + .5j * np.sign(v))
    mu = u * n / 2
    giw = np.mean(1 / (1j * v + mu - ek[..., None] - siw), axis=(0, 1, 2))
    out = dict(giw=giw, siw=siw, n=n, beta=beta, u=u, mu_dmft=mu)
    for ch, s in (('dens', 1), ('magn', -1)):
        b = rng.standard_normal((2 * niw + 1, 2 * niv, 2 * niv)) + 1j * rng.standard_normal((2 * niw + 1, 2 * niv, 2 * niv))
        b = .5 * (b + np.swapaxes(b, 1, 2))
        b = .5 * (b + np.conj(np.flip(b, axis=(0, 1, 2))))
        gam = s * u / beta ** 2 * (1 + .15 * b)
        g2 = np.zeros_like(gam)
        for i in range(2 * niw + 1):
            w = i - niw
            g0 = -beta * giw[niv_g - niv:niv_g + niv] * giw[niv_g - niv - w:niv_g + niv - w]
            g2[i] = np.linalg.inv(np.diag(1 / g0) + gam[i]) / beta
        if ch == 'dens':
            gg = giw[niv_g - niv:niv_g + niv]
            g2[niw] += 2 * gg[:, None] * gg[None, :]
        out['g4iw_' + ch] = g2
    return out


def config(path, extra=None, niw=4, niv=4, shell=2, nk=4, name='dga_config.yaml', sym='two_dimensional_square', hr=(1., -.2, .1), **top):
    d = {'box_sizes': dict(niw_core=niw, niv_core=niv, niv_shell=shell),
         'lattice': dict(symmetries=sym, type='t_tp_tpp', hr_input=list(hr), nk=[nk, nk, 1], nq=[nk, nk, 1]),
         'dmft_input': dict(type='default', input_path=path, fname_1p='1p-data.npy', fname_2p='1p-data.npy', do_sym_v_vp=True),
         'dga': dict(lambda_corr='spch'), 'output': dict(verbosity=0)}
    for k, v in (extra or {}).items(): d.setdefault(k, {}).update(v)
    for k, v in top.items(): d.setdefault(k, {}).update(v)
    from ruamel.yaml import YAML
    with open(path + name, 'w') as f: YAML().dump(d, f)


def write_input(path, **kw):
    np.save(path + '1p-data.npy', dmft(**kw), allow_pickle=True)


def mpirun(n, args, timeout=120, env=None, cwd=None):
    '''-> exit code, or None when it did not end in time'''
    p = subprocess.Popen((['mpirun', '-n', str(n)] if n > 1 else []) + [PY] + args, env=dict(ENV, **(env or {})), cwd=cwd,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        p.out = p.communicate(timeout=timeout)[0].decode(errors='replace')
        mpirun.out = p.out
        return p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        mpirun.out = p.communicate()[0].decode(errors='replace')
        return None


def dga(path, n=1, timeout=120, cfg=None, pre='', code='from dga.dga_main import main; main()', expect=True):
    '''Run the program on n ranks; return the new output folder.'''
    before = set(os.listdir(path))
    src = 'import warnings; warnings.filterwarnings("ignore"); import numpy as np; np.random.seed(5)\n' + pre + '\n' + code
    with open(path + '_main.py', 'w') as f: f.write(src)
    rc = mpirun(n, [path + '_main.py', '-p', path] + (['-c', cfg] if cfg else []), timeout)
    new = sorted(x for x in set(os.listdir(path)) - before if x.startswith('LDGA'))
    if expect and (rc != 0 or len(new) != 1):
        print('run failed', rc, new, mpirun.out[-2500:])
        sys.exit(1)
    dga.rc = rc
    return path + new[0] + '/' if new else None


def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.max(np.abs(a - b)) <= tol * max(np.max(np.abs(a)), np.max(np.abs(b)), 1e-300)


def check(ok, msg):
    if not ok:
        print('BROKEN:', msg)
        sys.exit(1)
