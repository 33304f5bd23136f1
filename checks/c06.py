'''C06: the momentum-dependent ladder vertex is collected for every momentum and bosonic frequency.'''
from .dgabase import *  # noqa


class C06(DgaCheck):
    id = 'C06'
    need = {'save_fq': True}
    big = .004
    case_timeout = 150.

    def judge(self, r, case, ref, out):
        try: self.chi_from_output(ref, out)
        except Exception as e: return r.bad('chi-missing', repr(e))
        for c in ('dens', 'magn'): self.cmp(r, f'F_{c}', out.get(f'F_{c}.npy'), ref.f_full(c))


CHECK = C06()
