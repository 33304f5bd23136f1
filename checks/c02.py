'''C02: scatter, gather, allgather, allreduce and bcast of the distributor lose, duplicate and reorder nothing.'''
from .util import *  # noqa

DT = ['float64', 'complex128', 'complex64', 'float32', 'int64', 'int32', 'bool']
OPS = ['scatter', 'gather', 'allgather', 'allreduce', 'bcast']


def _data(seed, shape, dt, layout):
    rs = np.random.RandomState(seed)
    a = rs.randint(-50, 50, size=shape)
    if dt.startswith('complex'): a = a + 1j * rs.randint(-50, 50, size=shape)
    if dt == 'bool': a = a > 0
    a = np.asarray(a, dtype=dt)
    return _lay(a, layout)


def _lay(a, layout):
    if a.ndim == 0: return a
    if layout == 'F': return np.asfortranarray(a)
    if layout == 'T': return np.ascontiguousarray(a.T).T
    if layout == 'strided':
        b = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    if layout == 'neg':
        return np.ascontiguousarray(a[::-1])[::-1]
    return np.ascontiguousarray(a)


class C02(Check):
    id = 'C02'
    quick_s = 12
    max_quick = 500
    batch = 20
    rule = 'A case is non-trivial when more than one rank takes part and some array has elements.'
    real_components = 'dga.mpi_aux.MpiDistributor, numpy buffers through the mpi4py calling convention'
    stub_components = STUB
    assumptions = ['simulated MPI has the semantics of mpi4py/OpenMPI (differential: selftest/mpi_diff.py)',
                   'sizes below 2^31 elements']

    def gen(self, rng, i, tier):
        size = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9, 12])
        ops = []
        for _ in range(rng.randrange(1, 7)):
            rest = [rng.choice([1, 2, 3, 5]) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            if rng.random() < .05 and rest: rest[0] = 0
            lay = rng.choice(['C', 'C', 'C', 'F', 'T', 'strided', 'neg'])
            if ops and rng.random() < .35:  # the same call once more with other data
                ops.append(rng.choice(ops)[:6] + [rng.randrange(1 << 20)])
                continue
            ops.append([rng.choice(OPS), rng.choice([0, 1, size - 1, size, size + 1, 7, 16, 25, rng.randrange(40)]), rest,
                        rng.choice(DT), lay, rng.choice([0, 0, size - 1, rng.randrange(size)]), rng.randrange(1 << 20)])
        return dict(size=size, ops=ops, policy=rng.choice(core.POLICIES[:5]), split=rng.random() < .15, reuse=rng.random() < .6)

    def run(self, case, choices, root):
        from dga.mpi_aux import MpiDistributor
        r = Res()
        r.nontrivial = case['size'] > 1 and any(o[1] for o in case['ops'])

        def fn(comm):
            c = comm.Split(comm.rank % 2, comm.rank) if case['split'] else comm
            bad, kept, dists = [], [], {}
            for k, (op, n, rest, dt, lay, root_, seed) in enumerate(case['ops']):
                rt = root_ % c.size
                d = dists.setdefault(n, MpiDistributor(ntasks=n, comm=c)) if case.get('reuse') else MpiDistributor(ntasks=n, comm=c)
                full = _data(seed, [n] + rest, dt, 'C')
                mine = _lay(full[d.my_slice].copy(), lay)
                keep = mine.copy()
                tag = f'op {k} {op} ntasks={n} rest={rest} {dt} {lay} root={rt} size={c.size}'
                if op == 'scatter':
                    src = _lay(full.copy(), lay) if c.rank == rt else None
                    got, want = d.scatter(src, root=rt), full[d.my_slice]
                    if src is not None and not np.array_equal(src, full): bad.append(('input-changed', tag))
                elif op == 'gather':
                    got, want = d.gather(mine, root=rt), full
                    if c.rank != rt: continue  # undefined there
                elif op == 'allgather':
                    got, want = d.allgather(mine), full
                elif op == 'allreduce':
                    sh = rest if rest else [3]
                    if dt == 'bool': dt = 'int64'
                    parts = [_data(seed + q, sh, dt, 'C') for q in range(c.size)]
                    mine = _lay(parts[c.rank].copy(), lay)
                    keep = mine.copy()
                    got, want = d.allreduce(mine), sum(parts[1:], parts[0])
                else:
                    obj = [{'a': full, 'n': n}, full, float(n), None, f's{n}'][seed % 5]
                    got = d.bcast(obj if c.rank == rt else None, root=rt)
                    if isinstance(obj, dict):
                        if got.get('n') != n: bad.append(('bcast', tag))
                        got, want = got['a'], full
                    elif isinstance(obj, np.ndarray): want = full
                    else:
                        if got != obj: bad.append(('bcast', tag))
                        got = want = full
                got = np.asarray(got)
                if got.shape != tuple(want.shape) or got.dtype != want.dtype:
                    bad.append((op + '-shape', f'{tag}: {got.shape} {got.dtype} instead of {want.shape} {want.dtype}'))
                elif not (np.allclose(got, want, rtol=1e-5, atol=1e-3) if op == 'allreduce' else np.array_equal(got, want)):
                    bad.append((op, f'{tag} rank {c.rank}: wrong content'))
                else: kept.append((op, tag, got, got.copy()))
                if not np.array_equal(mine, keep): bad.append(('input-changed', tag))
            for op, tag, got, was in kept:  # results belong to the caller, later calls leave them alone
                if not np.array_equal(got, was): bad.append((op + '-overwritten', f'{tag} rank {c.rank}: the result changed during a later call'))
            return bad
        w = job(case, choices, root, case['size'], fn, res=r)
        if any(p.exc for p in w.procs): r.bad('exception', exc_text(w))
        for p in w.procs:
            for s, m in (p.result or []): r.bad(s, m)
        for o in case['ops']: r.states.append(f'{o[0]}/{o[3]}/{o[4]}/{len(o[2])}')
        return r

    def shrink(self, case):
        out = []
        for i in range(len(case['ops'])):
            if len(case['ops']) > 1: out.append(dict(case, ops=[case['ops'][i]]))
            o = case['ops'][i]
            for n in (1, o[1] // 2, o[1] - 1):
                if 0 <= n < o[1]: out.append(dict(case, ops=case['ops'][:i] + [[o[0], n] + o[2:]] + case['ops'][i + 1:]))
            if o[4] != 'C': out.append(dict(case, ops=case['ops'][:i] + [o[:4] + ['C'] + o[5:]] + case['ops'][i + 1:]))
            if o[2]: out.append(dict(case, ops=case['ops'][:i] + [o[:2] + [o[2][1:]] + o[3:]] + case['ops'][i + 1:]))
        if case['size'] > 1: out += [dict(case, size=2), dict(case, size=case['size'] - 1)]
        if case['split']: out.append(dict(case, split=False))
        return out


CHECK = C02()
