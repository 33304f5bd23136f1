'''C05: the pairing vertex is assembled completely and correctly from the rank files.'''
from .dgabase import *  # noqa


class C05(DgaCheck):
    id = 'C05'
    need = {'pairing': True, 'keep_pairing': True}
    big = .004
    case_timeout = 150.

    def judge(self, r, case, ref, out):
        try: self.chi_from_output(ref, out)
        except Exception as e: return r.bad('chi-missing', repr(e))
        s, t = ref.pairing()
        self.cmp(r, 'F_sing_pp', out.get('Eliashberg/F_sing_pp.npy'), s)
        self.cmp(r, 'F_trip_pp', out.get('Eliashberg/F_trip_pp.npy'), t)


CHECK = C05()
