'''C07: the optics vertex and the current-current correlator.'''
from .dgabase import *  # noqa


class C07(DgaCheck):
    id = 'C07'
    need = {'optics_b': True, 'optics_v': True, 'keep_fq_optics': True}
    big = .004
    case_timeout = 150.

    def tune(self, rng, c):
        b = c['box']
        o = c['opts']
        if rng.random() < .5:
            o['niw_vert'] = rng.randrange(1, b['niw_core'] + 1)
        if rng.random() < .5:
            o['niw_cond'] = rng.randrange(1, min(b['niw_core'], b['niv_core'] - 1) + 1)
        if rng.random() < .4:
            o['der_a'], o['der_b'] = rng.choice([(0, 0), (0, 1), (1, 0), (1, 1)])

    def judge(self, r, case, ref, out):
        try: self.chi_from_output(ref, out)
        except Exception as e: return r.bad('chi-missing', repr(e))
        o, b = case['opts'], case['box']
        nw = o.get('niw_cond', b['niw_core'] // 2)
        nvt = o.get('niw_vert', b['niw_core'])
        fc = ref.f_cond(nw, nvt)
        self.cmp(r, 'F_cond', out.get('Optics/F_cond.npy'), ref.mesh(fc))
        g = out.get('giwk_dga.npy')
        if g is None: return r.bad('giwk-missing', '')
        la = ref.light(o.get('der_a', 0))
        lb = ref.light(o.get('der_b', 0))
        want = ref.chijj_vert(g, fc, la, lb, nw, nvt)
        got = out.get('Optics/chijj_vert.npy')
        if got is None or isinstance(got, Exception): return r.bad('chijj_vert-missing', repr(got))
        if got.shape != (2 * nw + 1,): return r.bad('chijj_vert', f'shape {got.shape}, expected {(2 * nw + 1,)}')
        scale = ref.chijj_bubble(g, la, la, [0], min(10, g.shape[-1] // 2))
        d = np.max(np.abs(got[nw:] - want))
        if d > 1e-9 * max(np.max(np.abs(want)), 1e-4 * np.abs(scale[0]).max()) + 1e-13:
            r.bad('chijj_vert', f'chijj_vert: {got[nw:]} expected {want}')
        if np.max(np.abs(got[:nw + 1][::-1] - np.conj(got[nw:]))) > 1e-9 * (1 + np.max(np.abs(got))):
            r.bad('chijj_vert', 'negative frequencies are not the conjugate of the positive ones')


CHECK = C07()
