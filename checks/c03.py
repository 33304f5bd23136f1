'''C03: what a run writes does not depend on the number of ranks or on the schedule.'''
from .dgabase import *  # noqa

LOOSE = (('eliashberg', 2e-3), ('eigenvalues', 1e-4), ('lambda', 1e-5), ('Siw_', 1e-5), ('siwk_fit', 1e-5), ('olyfit', 1e-4),
         ('oz_', 1e-3), ('oz.', 1e-3))


class C03(DgaCheck):
    id = 'C03'
    quick_s = 30
    rule = ('A case is a randomly drawn system, option set, rank count and schedule, run once on N ranks and once on one rank '
            '(in-order schedule); it is non-trivial when N > 1.')
    assumptions = DgaCheck.assumptions + ['rank 0 draws the same random numbers whatever the number of ranks',
                                          'figures and log files are not compared']

    def gen(self, rng, i, tier):
        c = super().gen(rng, i, tier)
        if c['ranks'] == 1: c['ranks'] = 3
        return c

    def run(self, case, choices, root):
        r = Res()
        outs = []
        for k, n in enumerate((case['ranks'], 1)):
            sub = os.path.join(root, f'r{k}')
            os.makedirs(sub)
            c = dict(case, ranks=n)
            if n == 1: c['policy'] = 'seq'
            o = dgarun.run_dga(c, sub, choices if k == 0 else [], ranks=n)
            if k == 0:
                r.add_world(o.world)
                r.choices = o.world.ch.rec
                if o.world.verdicts: return r
            if not o.ok:
                r.bad(f'run-failed', f'on {n} ranks: {o.errors} {o.orphaned or ""} {(o.tb or [""])[0]}'[-1200:])
                return r
            dirs = dgarun.find_output_dirs(o.path)
            if len(dirs) != 1:
                r.bad('output-dir', f'{dirs}')
                return r
            outs.append(dgarun.collect(os.path.join(o.path, dirs[0])))
            r.worlds += k
        for a in outs:  # the configuration copy names the input folder of the run
            for k in a:
                if isinstance(a[k], bytes): a[k] = a[k].replace(os.path.join(root, 'r0').encode(), b'@').replace(
                    os.path.join(root, 'r1').encode(), b'@')
        for k, m in dgarun.compare(outs[0], outs[1], rtol=1e-7, ignore=('Rank', ), loose=LOOSE):
            r.bad('differs:' + k.split(':')[0].split('[')[0], f'{k}: {case["ranks"]} ranks vs 1 rank: {m}')
        r.info['files-compared'] = len(outs[0])
        return r


CHECK = C03()
