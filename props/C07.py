"""C07 negation (with format change) flips the sign and nothing else"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\nusing namespace thls;\n'

def build(tier):
    fm = [(f, f) for f in (WIDE if tier == 'quick' else WIDE + [(E, F) for E in (2, 3, 13, 14) for F in range(1, 33)]) + [(4, 1), (4, 2), (2, 3), (11, 52), (8, 60), (15, 100)]]
    fm += [((4, 6), (4, 3)), ((4, 3), (4, 6)), ((5, 10), (8, 23)), ((8, 23), (5, 10)), ((8, 23), (8, 22)), ((6, 9), (5, 12)), ((11, 52), (8, 23))]
    groups = []
    for k, ch in enumerate(chunks(fm, 10)):
        g = Group('neg%d' % k, ''); code = INC
        for a, b in ch:
            n = 'neg_%d_%d__%d_%d' % (a + b)
            code += 'VP %s(const u128*in,u128*out){ auto x=FP<%d,%d>(in); out[0]=OUT(neg<%d,%d>(x)); out[1]=OUT(neg<%d,%d>(neg<%d,%d>(x))); }\n' % ((n,) + a + b + a + a)
            def spec(i, o, a=a, b=b):
                x = dec(i, 'x', *a)
                f = O.convert(O.FP(a[0], a[1], x.flags, NOT(x.sign), x.exp, x.frac), *b)
                return [('negation is the same magnitude with the opposite sign', NOT(O.same(O.flopoco(b[0], b[1], o[0]), f))),
                        ('negating twice gives the number back', NOT(O.same(O.flopoco(a[0], a[1], o[1]), x)))]
            g.job(n, fp_ins(a), 2, spec, witness=lambda i, a=a: [('negative zero', AND(dec(i, 'x', *a).zero, dec(i, 'x', *a).sign))], config='neg (%d,%d)->(%d,%d)' % (a + b))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C07', build, bounds=lambda t: 'each listed format pair, all argument bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
