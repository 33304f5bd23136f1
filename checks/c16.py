'''C16: a job writes only inside its own output folder, every file has one writer, and the log has every event once, in order.'''
import re

from .dgabase import *  # noqa
from .c10 import tree_hash
from .maxentbase import finished_run, gen_mejob, QUANT

MUT = ('open_w', 'write', 'h5open_w', 'h5write', 'mkdir', 'rename', 'remove', 'rmdir', 'truncate')


def messages(text):
    '''Log lines without their times; numbers that depend on the share of a rank are dropped.'''
    out = []
    for ln in text.splitlines():
        ln = re.sub(r'^\d\d:\d\d:\d\d : ', '', ln)
        ln = re.sub(r'^(?:-?\d+ days?, )?\d+:\d\d:\d\d : (?:-?\d+ days?, )?\d+:\d\d:\d\d : ', '', ln)
        ln = re.sub(r'Running on \d+', 'Running on N', ln)
        ln = re.sub(r'uses \(GB\): .*', 'uses', ln)
        out.append(ln.strip())
    return out


class C16(DgaCheck):
    id = 'C16'
    quick_s = 30
    rule = ('A case is a random job on N ranks with a clock that runs at a random speed and jumps up to three times, compared with '
            'the job on one rank with a steady clock, or a continuation of a finished output started in its input folder or elsewhere; non-trivial when more than one rank takes part.')
    assumptions = DgaCheck.assumptions + ['the clock is the same on all ranks (one node) but may jump in either direction']

    def gen(self, rng, i, tier):
        if rng.random() < .15:
            c = gen_mejob(rng)
            me = {k: v for k, v in c['max_ent_later'].items() if k not in QUANT}
            for q in rng.sample(sorted(QUANT), rng.choice([1, 1, 2])): me[q] = dict(do_cont=True)
            c.update(max_ent_later=me, ranks=min(c['ranks'], 4), cwd_other=rng.random() < .5)
            return c
        c = super().gen(rng, i, tier)
        c['opts']['verbosity'] = rng.choice([0, 1, 2])
        c['clock'] = {'per_step': rng.choice([0.0, 0.001, 0.3, 20.0]),
                      'jumps': [dict(step=rng.randrange(4000), delta=rng.choice([-1e6, -3600, -1, 0.5, 3600, 1e7]))
                                for _ in range(rng.choice([0, 1, 2, 3]))]}
        if c['ranks'] == 1: c['ranks'] = 2
        c['in_type'] = rng.choice(['default', 'default', 'EDFermion'])
        return c

    def one(self, case, root, choices, ranks):
        os.makedirs(root)
        dd, path = dgarun.prepare(case, root)
        before = tree_hash(root)
        o = dgarun.run_dga(dict(case, log_ops=True), root, choices, path=path, prep=False, ranks=ranks)
        ds = dgarun.find_output_dirs(path)
        after = tree_hash(root)
        log = ''
        if len(ds) == 1:
            for f in sorted(os.listdir(os.path.join(path, ds[0]))):
                if f.endswith('.log'):
                    with open(os.path.join(path, ds[0], f)) as h: log += h.read()
        return o, ds, before, after, log

    def continuation(self, case, choices, root, r):
        from dga import dga_max_ent
        a = os.path.join(root, 'a')
        os.makedirs(a)
        d, err = finished_run(case, a)
        r.worlds += 1
        r.nontrivial = True
        if d is None: return r.bad('run-failed', err)
        before = tree_hash(root)
        c = dict(case, log_ops=True)
        w = job(c, choices, root if case['cwd_other'] else a, case['ranks'], lambda comm: dga_max_ent.main(d, comm), res=r)
        if r.violations: return
        if exc_text(w) or w.orphaned: return r.bad('run-failed', f'{exc_text(w)} {w.orphaned or ""} ' + ''.join(p.exc_tb or '' for p in w.procs)[-900:])
        rel = os.path.relpath(d, root) + os.sep
        r.states.append(f'me{case["ranks"]}/' + '/'.join(q for q in case['max_ent_later'] if q in QUANT))
        after = tree_hash(root)
        for f in before:
            if after.get(f) != before[f] and not f.endswith('.log'): r.bad('input-changed', f)
        for f in after:
            if f not in before and not f.startswith(rel): r.bad('file-outside', f'{f} was left outside of {rel}')
            if f not in before and f.startswith(rel) and os.sep not in f[len(rel):] and not f.endswith('.log'): r.bad('file-outside', f'{f} was left outside of the folders of the continuation')
        writers = {}
        for j, rk, op, f in w.fs.ops:
            if op in MUT and op not in ('mkdir', 'remove'): writers.setdefault(f, set()).add(rk)
        for f, k in writers.items():
            if len(k) > 1: r.bad('two-writers', f'{f} is written by ranks {sorted(k)}')
            if 'Rank' not in f and k != {0}: r.bad('result-not-from-root', f'{f} is written by rank {sorted(k)}')

    def run(self, case, choices, root):
        r = Res()
        if 'max_ent_later' in case:
            self.continuation(case, choices, root, r)
            return r
        r.nontrivial = case['ranks'] > 1
        o, ds, before, after, log = self.one(case, os.path.join(root, 'a'), choices, case['ranks'])
        r.add_world(o.world)
        r.choices = o.world.ch.rec
        if o.world.verdicts: return r
        if not o.ok or len(ds) != 1:
            r.bad('run-failed', f'{ds} {o.errors} {o.orphaned or ""} {(o.tb or [""])[0] or ""}'[-1300:])
            return r
        for f in before:
            if after.get(f) != before[f]: r.bad('input-changed', f)
        for f in after:
            if f not in before and not f.startswith(ds[0] + os.sep): r.bad('file-outside', f'{f} was left outside of {ds[0]}')
        writers = {}
        for j, rk, op, rel in o.world.fs.ops:
            if op not in MUT: continue
            if not (rel + os.sep).startswith(ds[0] + os.sep): r.bad('write-outside', f'rank {rk}: {op} {rel}')
            if op not in ('mkdir', 'remove'): writers.setdefault(rel, set()).add(rk)
        for f, w in writers.items():
            if len(w) > 1: r.bad('two-writers', f'{f} is written by ranks {sorted(w)}')
            if 'Rank' not in f and w != {0}: r.bad('result-not-from-root', f'{f} is written by rank {sorted(w)}')
        o1, ds1, _, _, log1 = self.one(dict({k: v for k, v in case.items() if k != 'clock'}, policy='seq'), os.path.join(root, 'b'), [], 1)
        r.worlds += 1
        if not o1.ok:
            r.bad('run-failed', f'on one rank: {o1.errors}')
            return r
        m, m1 = messages(log), messages(log1)
        if m != m1:
            k = next((k for k in range(max(len(m), len(m1))) if m[k:k + 1] != m1[k:k + 1]), 0)
            r.bad('log', f'line {k}: {m[k:k + 2]} on {case["ranks"]} ranks, {m1[k:k + 2]} on one ({len(m)} and {len(m1)} lines)')
        n = re.findall(r'Running on (\d+)', log)
        if n and n != [str(case['ranks'])]: r.bad('log', f'rank count in the log: {n}')
        return r

    def shrink(self, case):
        out = super().shrink(case)
        if case.get('clock'): out.append({k: v for k, v in case.items() if k != 'clock'})
        return out


CHECK = C16()
