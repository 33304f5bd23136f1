'''C09: a storage fault on the per-rank vertex files never turns into silently wrong vertices.'''
from .faultbase import *  # noqa


class C09(FaultCheck):
    id = 'C09'

    def tune(self, rng, c):
        o = c['opts']
        k = rng.choice(['p', 'o', 'f', 'po', 'pf', 'pof'])
        o['pairing'], o['optics_b'], o['optics_v'], o['save_fq'] = 'p' in k, 'o' in k, 'o' in k, 'f' in k
        o['eliash'] = o['pairing'] and rng.random() < .2
        o['keep_pairing'] = o['keep_fq_optics'] = True

    def faults(self, rng, c):
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            op = rng.choice(['h5open_w', 'h5open_w', 'h5open_r', 'h5write', 'h5write', 'h5read', 'h5close', 'h5close'])
            out.append(dict(op=op, path='*Rank*', kind=rng.choice(['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'EDQUOT']),
                            nth=0 if rng.random() < .25 else rng.randrange({'h5open_w': 8, 'h5open_r': 12, 'h5write': 120, 'h5read': 400, 'h5close': 12}[op]),
                            rank=rng.choice([None] + list(range(c['ranks']))), sticky=rng.random() < .4))
        return out


CHECK = C09()
