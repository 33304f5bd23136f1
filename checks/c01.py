'''C01: the work partition.'''
from .util import *  # noqa


class C01(Check):
    id = 'C01'
    quick_s = 10
    max_quick = 600
    batch = 20
    rule = 'A case is non-trivial when more than one rank takes part and there is at least one task.'
    real_components = 'dga.mpi_aux.MpiDistributor'
    stub_components = STUB
    assumptions = ['simulated MPI has the semantics of mpi4py/OpenMPI (differential: selftest/mpi_diff.py)']

    def gen(self, rng, i, tier):
        size = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24])
        hi = rng.choice([2, size, size + 1, 2 * size, 30, 200, 3000])
        if rng.random() < .04:
            return dict(size=size, jobs=[[rng.choice([32768, 65536, 40000, 100003]) + rng.randrange(9), False]], policy='rr', split=False)
        return dict(size=size, jobs=[[rng.randrange(0, hi + 1), rng.random() < .4] for _ in range(rng.randrange(1, 4))],
                    policy=rng.choice(core.POLICIES[:5]), split=rng.random() < .25)

    def run(self, case, choices, root):
        from dga.mpi_aux import MpiDistributor
        import h5py
        r = Res()
        r.nontrivial = case['size'] > 1 and any(n for n, _ in case['jobs'])

        def fn(comm):
            c = comm.Split(comm.rank % 2, comm.rank) if case['split'] else comm
            out = []
            for j, (n, files) in enumerate(case['jobs']):
                kw = {}
                if files:
                    d = os.path.join(root, f'g{comm.rank % 2 if case["split"] else 0}')
                    os.makedirs(d, exist_ok=True)
                    kw = dict(output_path=d, name=f'J{j}')
                d = MpiDistributor(ntasks=n, comm=c, **kw)
                if files:
                    with d as f:
                        for t in d.my_tasks: f[f't{t}'] = np.array([t])
                    c.Barrier()
                out.append((c.rank, c.size, [int(x) for x in d.my_tasks], [int(x) for x in d.sizes], int(d.my_size),
                            (d.my_slice.start, d.my_slice.stop), bool(d.is_root), int(d.ntasks), d.fname if files else None))
            return comm.rank % 2 if case['split'] else 0, out
        w = job(case, choices, root, case['size'], fn, res=r)
        if any(p.exc for p in w.procs):
            r.bad('exception', exc_text(w))
            return r
        if w.verdicts: return r
        groups = {}
        for p in w.procs: groups.setdefault(p.result[0], []).append(p.result[1])
        for g, res in groups.items():
            for j, (n, files) in enumerate(case['jobs']):
                x = sorted(q[j] for q in res)
                size = x[0][1]
                allt = [t for q in x for t in q[2]]
                if sorted(allt) != list(range(n)):
                    r.bad('not-exactly-once', f'{n} tasks on {size} ranks: handed out {sorted(allt)[:40]}')
                if allt != list(range(n)): r.bad('rank-order', f'{n} tasks on {size} ranks: not in rank order')
                ln = [len(q[2]) for q in x]
                if max(ln) - min(ln) > 1: r.bad('unbalanced', f'{n} tasks on {size} ranks: shares {ln}')
                for q in x:
                    if q[3] != ln or q[4] != len(q[2]) or list(range(n))[q[5][0]:q[5][1]] != q[2] or q[6] != (q[0] == 0) or q[7] != n:
                        r.bad('inconsistent-view', f'rank {q[0]} of {size}: sizes {q[3]} size {q[4]} slice {q[5]} tasks {q[2][:20]}')
                if files:
                    names = [q[8] for q in x]
                    if len(set(names)) != size: r.bad('shared-rank-file', f'{names[:6]}')
                    for q in x:
                        with h5py.File(q[8], 'r') as f:
                            if sorted(f.keys()) != sorted(f't{t}' for t in q[2]):
                                r.bad('rank-file-content', f'{os.path.basename(q[8])}: {sorted(f.keys())[:10]} for {q[2][:10]}')
                r.states.append(f'{n}/{size}')
        return r

    def shrink(self, case):
        out = []
        for i in range(len(case['jobs'])):
            if len(case['jobs']) > 1: out.append(dict(case, jobs=case['jobs'][:i] + case['jobs'][i + 1:]))
            n, f = case['jobs'][i]
            for m in (0, 1, n // 2, n - 1):
                if 0 <= m < n: out.append(dict(case, jobs=case['jobs'][:i] + [[m, f]] + case['jobs'][i + 1:]))
            if f: out.append(dict(case, jobs=case['jobs'][:i] + [[n, False]] + case['jobs'][i + 1:]))
        if case['size'] > 1: out += [dict(case, size=case['size'] // 2), dict(case, size=case['size'] - 1)]
        if case['split']: out.append(dict(case, split=False))
        return out


CHECK = C01()
