'''Differential test of the simulated MPI: random programs of collectives, point-to-point messages and the distributor of the
repository run on real OpenMPI (mpirun) and on the simulator; every rank must see the same values on both.

    python3 selftest/mpi_diff.py [programs per rank count] [seed]
'''
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DT = ['int64', 'float64', 'complex128', 'float32', 'int32', 'complex64']


def gen(rng, n):
    '''A program: operations every rank of an n-rank communicator executes in the same order.'''
    ops = []
    for _ in range(rng.randrange(2, 9)):
        k = rng.choice(['bcast', 'gather', 'scatter', 'allgather', 'alltoall', 'reduce', 'allreduce', 'Bcast', 'Gatherv', 'Gather', 'Allgatherv',
                        'Allgather', 'Scatterv', 'Scatter', 'Allreduce', 'Reduce', 'Barrier', 'ring', 'any', 'split', 'dup', 'dist',
                        'isend', 'unequal', 'scan', 'probe', 'Alltoall', 'buffered'])
        o = dict(k=k, root=rng.randrange(n), dt=rng.choice(DT), n=rng.choice([0, 1, 2, 3, 5, 8]), row=rng.choice([[], [1], [2], [3, 2], [2, 0]]),
                 seed=rng.randrange(10 ** 6), lay=rng.choice(['C', 'C', 'F', 'stride', 'T']), op=rng.choice(['SUM', 'MAX', 'MIN', 'PROD']),
                 colors=[rng.randrange(2) for _ in range(n)], keys=[rng.randrange(3) for _ in range(n)], tag=rng.randrange(5),
                 how=rng.choice(['short', 'long', 'type']))
        ops.append(o)
    return ops


def arr(np, o, rank, n=None):
    r = np.random.RandomState(o['seed'] + rank)
    shape = [o['n'] if n is None else n] + o['row']
    x = r.randint(-9, 9, size=shape).astype(o['dt'])
    if 'complex' in o['dt']: x = (x + 1j * r.randint(-9, 9, size=shape)).astype(o['dt'])
    return x


def show(np, x):
    if isinstance(x, np.ndarray): return [str(x.dtype), list(x.shape), repr(x.tolist())]
    if isinstance(x, (list, tuple)): return [show(np, y) for y in x]
    return repr(x)


def program(comm, ops):
    import numpy as np
    from mpi4py import MPI
    from dga.mpi_aux import MpiDistributor
    out = []

    def counts(o, s):
        r = random.Random(o['seed'])
        return [r.randrange(4) for _ in range(s)]
    for o in ops:
        r, s, k, root = comm.Get_rank(), comm.Get_size(), o['k'], o['root']
        root %= s
        x = arr(np, o, r)
        c = counts(o, s)
        w = int(np.prod(o['row'])) if o['row'] else 1
        op = getattr(MPI, o['op'])
        if k == 'bcast': v = comm.bcast({'a': x, 'r': r} if r == root else None, root=root); v = [v['a'], v['r']]
        elif k == 'gather': v = comm.gather((r, x), root=root)
        elif k == 'scatter': v = comm.scatter([(i, x) for i in range(s)] if r == root else None, root=root)
        elif k == 'allgather': v = comm.allgather(x)
        elif k == 'alltoall': v = comm.alltoall([(r, i) for i in range(s)])
        elif k == 'reduce': v = comm.reduce(r + 1, op=op, root=root)
        elif k == 'allreduce': v = comm.allreduce(r + 2, op=op)
        elif k == 'Bcast':
            v = x if r == root else np.zeros_like(x)
            comm.Bcast(v, root=root)
        elif k in ('Gatherv', 'Allgatherv'):
            mine = arr(np, o, r, c[r])
            v = np.full([sum(c)] + o['row'], 77, o['dt'])
            spec = [v, np.array(c) * w]
            if k == 'Gatherv': comm.Gatherv(mine, spec, root=root)
            else: comm.Allgatherv(mine, spec)
        elif k in ('Gather', 'Allgather'):
            v = np.full([s] + list(x.shape), 77, o['dt'])
            if k == 'Gather': comm.Gather(x, v, root=root)
            else: comm.Allgather(x, v)
        elif k == 'Scatterv':
            full = arr(np, o, 1000, sum(c)) if r == root else None
            v = np.full([c[r]] + o['row'], 77, o['dt'])
            comm.Scatterv([full, np.array(c) * w], v, root=root)
        elif k == 'Scatter':
            full = arr(np, o, 1000, s * o['n']) if r == root else None
            v = np.full([o['n']] + o['row'], 77, o['dt'])
            comm.Scatter(full, v, root=root)
        elif k in ('Allreduce', 'Reduce'):
            if 'complex' in o['dt'] and o['op'] in ('MAX', 'MIN'): op = MPI.SUM
            v = np.full(x.shape, 77, o['dt'])
            if k == 'Allreduce': comm.Allreduce(x, v, op=op)
            else: comm.Reduce(x, v, op=op, root=root)
        elif k == 'Barrier': v = comm.Barrier()
        elif k == 'ring':
            v = comm.sendrecv((r, x), dest=(r + 1) % s, sendtag=o['tag'], source=(r - 1) % s, recvtag=o['tag'])
        elif k == 'any':
            if r == root:
                st = MPI.Status()
                got = {}
                for _ in range(s - 1):
                    m = comm.recv(source=MPI.ANY_SOURCE, tag=o['tag'], status=st)
                    got.setdefault(st.Get_source(), []).append(m)
                v = sorted(got.items())
            else:
                comm.send([r, o['seed']], dest=root, tag=o['tag'])
                v = None
            comm.Barrier()
        elif k == 'isend':
            q = [comm.isend((r, i), dest=(r + 1) % s, tag=i) for i in range(3)]
            v = [comm.recv(source=(r - 1) % s, tag=i) for i in (2, 0, 1)]
            for e in q: e.wait()
        elif k == 'split':
            sub = comm.Split(o['colors'][r % len(o['colors'])], o['keys'][r % len(o['keys'])])
            v = [sub.Get_rank(), sub.Get_size(), sub.allgather(r)]
        elif k == 'dup':
            d = comm.Dup()
            v = [d.Get_rank(), d.allreduce(1)]
        elif k == 'dist':
            d = MpiDistributor(o['n'] + s, comm)
            full = arr(np, o, 1000, o['n'] + s)
            if o['lay'] == 'F': full = np.asfortranarray(full)
            elif o['lay'] == 'stride': full = np.repeat(full, 2, axis=0)[::2]
            elif o['lay'] == 'T': full = np.ascontiguousarray(full.T).T
            part = d.scatter(full if r == 0 else None)
            g = d.gather(part * 2)
            v = [part, g if r == 0 else None, d.allgather(part), d.allreduce(np.array([r + 1.5])), d.bcast(x if r == 0 else None)]
        elif k == 'scan': v = [comm.scan(r + 1, op=op), comm.exscan(r + 1, op=op)]
        elif k == 'Alltoall':
            x = arr(np, o, r, s * o['n'])
            v = np.full(x.shape, 77, o['dt'])
            comm.Alltoall(x, v)
        elif k == 'probe':
            q = comm.isend(x, dest=(r + 1) % s, tag=o['tag'])
            st = MPI.Status()
            comm.probe(source=(r - 1) % s, tag=MPI.ANY_TAG, status=st)
            v = [st.Get_source(), st.Get_tag(), comm.iprobe(source=(r - 1) % s, tag=17), comm.recv(source=st.source, tag=st.tag)]
            q.wait()
            comm.Barrier()
        elif k == 'buffered':
            b = np.full(x.shape, 77, o['dt'])
            qs = [comm.Irecv(b, source=(r - 1) % s, tag=o['tag']), comm.Isend(x, dest=(r + 1) % s, tag=o['tag'])]
            MPI.Request.Waitall(qs)
            st = MPI.Status()
            v = [b]
            e = np.empty(x.shape, o['dt'])
            comm.Sendrecv(x, dest=(r - 1) % s, sendtag=1, recvbuf=e, source=(r + 1) % s, recvtag=1, status=st)
            v += [e, st.Get_source(), st.Get_tag(), comm.irecv(source=comm.isend([r], dest=r, tag=3) and r, tag=3).wait()]
        elif k == 'unequal':
            # a receive buffer that does not fit: error or not, and what was received
            if s < 2: continue
            if r == 0: comm.Send(np.arange(4.), dest=1, tag=9); v = None
            elif r == 1:
                b = {'short': np.full(2, -1.), 'long': np.full(6, -1.), 'type': np.full(4, -1.)}[o['how']]
                st = MPI.Status()
                try: comm.Recv(b, source=0, tag=9); v = b
                except Exception as e: v = 'error'
            else: v = None
        if k in ('Gatherv', 'Gather') and r != root: v = None
        if k == 'Reduce' and r != root: v = None
        out.append(show(np, v))
    return out


def real(progs, n, d):
    with open(d + '/progs.json', 'w') as f: json.dump(progs, f)
    env = dict(os.environ, OMP_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_btl='self,vader',
               OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_pml='ob1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_plm='isolated',
               OMPI_MCA_hwloc_base_binding_policy='none', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH='/repo/src')
    r = subprocess.run(['mpirun', '-n', str(n), PY, os.path.abspath(__file__), '--rank', d], env=env, capture_output=True, text=True, timeout=600)
    if r.returncode: raise RuntimeError(r.stderr[-2000:] + r.stdout[-500:])
    return [json.load(open(f'{d}/out{k}.json')) for k in range(n)]


def main():
    if sys.argv[1:2] == ['--rank']:
        from mpi4py import MPI
        d = sys.argv[2]
        res = [program(MPI.COMM_WORLD.Dup(), p) for p in json.load(open(d + '/progs.json'))]
        with open(f'{d}/out{MPI.COMM_WORLD.rank}.json', 'w') as f: json.dump(res, f)
        return 0
    if sys.argv[1:2] == ['--sim']:
        d, n = sys.argv[2], int(sys.argv[3])
        sys.path.insert(0, V)
        from sim import core, dgarun, env, mpi
        env.setup()
        res = [[] for _ in range(n)]
        for i, p in enumerate(json.load(open(d + '/progs.json'))):
            w = dgarun.make_world(dict(sched_seed=i, policy=['uniform', 'sticky', 'pct', 'starve', 'rr'][i % 5]), [], d)
            mpi.spawn_job(w, n, lambda comm, p=p: program(comm, p))
            dgarun.run_world(w)
            for k, q in enumerate(w.procs): res[k].append(q.result if q.exc is None else f'{type(q.exc).__name__}: {q.exc}')
        for k in range(n):
            with open(f'{d}/sim{k}.json', 'w') as f: json.dump(res[k], f)
        return 0
    m = int(sys.argv[1]) if len(sys.argv) > 1 else 60
    rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    bad = total = 0
    for n in (1, 2, 3, 4, 5, 7):
        d = tempfile.mkdtemp(prefix='mpidiff-')
        try:
            progs = [gen(rng, n) for _ in range(m)]
            a = real(progs, n, d)
            r = subprocess.run([PY, '-B', os.path.abspath(__file__), '--sim', d, str(n)], capture_output=True, text=True, timeout=900)
            if r.returncode: raise RuntimeError(r.stderr[-2000:])
            b = [json.load(open(f'{d}/sim{k}.json')) for k in range(n)]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for i in range(m):
            total += 1
            for k in range(n):
                if a[k][i] == b[k][i]: continue
                bad += 1
                j = next((j for j, (x, y) in enumerate(zip(a[k][i], b[k][i])) if x != y), 0) if isinstance(b[k][i], list) else 0
                print(f'n={n} program {i} rank {k} op {progs[i][j]}\n  real {str(a[k][i][j])[:300]}\n  sim  {str(b[k][i][j] if isinstance(b[k][i], list) else b[k][i])[:300]}')
                break
    print(f'{total} programs, {bad} differ')
    return 1 if bad else 0


if __name__ == '__main__': sys.exit(main())
