'''Runs with storage faults, judged against the same run without faults.'''
from .dgabase import *  # noqa
from .c03 import LOOSE

FAULTY = ('open_w', 'write', 'open_r', 'read', 'mkdir', 'h5open_w', 'h5open_r', 'h5write', 'h5read', 'h5close')


class FaultCheck(DgaCheck):
    quick_s = 30
    rule = ('A case is a randomly drawn system, option set, rank count, schedule and set of storage faults, run once with the '
            'faults and once without; it is non-trivial when at least one fault was delivered.')

    ignore = ('Rank',)

    def faults(self, rng, c): raise NotImplementedError

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        c['opts']['verbosity'] = rng.choice([0, 1, 1])
        c['faults'] = self.faults(rng, c)
        return c

    def pick(self, case, log):
        '''Faults on operations the undisturbed run performs; case['picks']: [x, y, kind, sticky] with x, y in [0, 1).'''
        seen = {}
        for j, r, op, rel in log:
            if op in FAULTY and not rel.endswith('.png'): seen.setdefault((op, rel), []).append(r)
        keys = sorted(seen)
        out = []
        for x, y, kind, sticky in case['picks']:
            if x < .35:  # kinds of files evenly: those there are few of are written in their own ways
                kinds = sorted({(op, os.path.splitext(rel)[1]) for op, rel in keys})
                z = x / .35 * len(kinds)
                some = [k for k in keys if (k[0], os.path.splitext(k[1])[1]) == kinds[int(z)]]
                op, rel = some[int((z - int(z)) * len(some))]
            else: op, rel = keys[int((x - .35) / .65 * len(keys))]
            rs = seen[op, rel]
            n = int(y * len(rs))
            if kind == 'short' and op != 'write': kind = 'EIO'
            out.append(dict(op=op, path=rel, rank=rs[n], nth=sum(1 for q in rs[:n] if q == rs[n]), kind=kind, sticky=sticky))
        return out

    def baseline(self, case, root, r):
        c = {k: v for k, v in case.items() if k != 'faults'}
        c['policy'] = 'seq'
        os.makedirs(root)
        c['log_ops'] = True
        o = dgarun.run_dga(c, root, [])
        r.worlds += 1
        self.oplog = o.world.fs.ops
        if not o.ok: return None
        d = dgarun.find_output_dirs(o.path)
        return dgarun.collect(os.path.join(o.path, d[0]))

    def run(self, case, choices, root):
        r = Res()
        a = os.path.join(root, 'a')
        os.makedirs(a)
        b = None
        if case.get('picks'):
            b = self.baseline(case, os.path.join(root, 'b'), r)
            if b is not None: case = dict(case, faults=self.pick(case, self.oplog))
        o = dgarun.run_dga(case, a, choices)
        r.add_world(o.world)
        r.choices = o.world.ch.rec
        inj = o.world.fs.injected
        r.nontrivial = bool(inj) or case.get('in_type', 'default') != 'default' or 'hr_file' in case
        r.info['failed-loudly'] = int(not o.ok)
        r.info['undisturbed'] = int(not inj)
        if o.world.verdicts: return r
        if o.orphaned:
            r.bad('hang-after-failure', o.orphaned)
            return r
        if not o.ok:
            if not inj and not case.get('truncate') and not case.get('drop'): r.bad('run-failed', f'{o.errors} {(o.tb or [""])[0]}'[-1200:])
            return r
        if b is None: b = self.baseline(case, os.path.join(root, 'b'), r)
        if b is None: return r
        r.info['survived'] = int(bool(inj))
        d = dgarun.find_output_dirs(o.path)
        if len(d) != 1:
            r.bad('output-dir', f'{d}')
            return r
        x = dgarun.collect(os.path.join(o.path, d[0]))
        for z in (x, b):
            for k in z:
                if isinstance(z[k], bytes): z[k] = z[k].replace(a.encode(), b'@').replace(os.path.join(root, 'b').encode(), b'@')
        for k, m in dgarun.compare(x, b, rtol=1e-6, ignore=self.ignore, loose=LOOSE):
            r.bad('silent:' + k.split(':')[0].split('[')[0], f'the run reported success after {inj[:3]}, but {k}: {m}')
        return r

    def shrink(self, case):
        out = super().shrink(case)
        for p in case.get('picks', ()):
            if len(case['picks']) > 1: out.insert(0, dict(case, picks=[p]))
        for i, f in enumerate(case.get('faults', ())):
            rest = case['faults'][:i] + case['faults'][i + 1:]
            if rest: out.insert(0, dict(case, faults=rest))
            for n in (0, f['nth'] // 2, f['nth'] - 1):
                if 0 <= n < f['nth']: out.append(dict(case, faults=case['faults'][:i] + [dict(f, nth=n)] + case['faults'][i + 1:]))
        return out
