"""C05 reciprocal is correctly rounded"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\nusing namespace thls;\n'
def one(E, F): return O.FP(E, F, const(1, 2), const(0, 1), const(O.bias(E), E), const(0, F))

def inv_recur(E, F):
    r = div_recur(None, (E, F), E, F, one(E, F))
    def recur(nm):
        d = r({'y': nm['x']}); rest = d['rest']
        d['rest'] = lambda i: [(a.replace('y', 'x', 1), {'x': m['y']}) for a, m in rest({'y': i['x']})]
        return d
    return recur

def build(tier):
    fm = [(4, 3), (5, 4), (4, 5), (6, 6), (8, 7), (4, 8), (5, 9), (5, 10), (6, 17), (8, 23), (8, 32), (11, 52), (7, 12), (5, 14), (9, 20), (6, 22), (4, 24), (10, 27), (12, 31)] if tier == 'quick' else [(E, F) for E in (3, 4, 5, 8, 11) for F in range(3, 11)] + [(5, 11), (6, 12), (8, 13)] + [(4 + F % 9, F) for F in range(14, 33) if F not in (28, 29)] + [(8, 23), (11, 40), (11, 47), (11, 52), (11, 53), (15, 54)]
    groups = []
    for k, ch in enumerate(chunks(fm, 3)):
        g = Group('inv%d' % k, ''); code = INC
        for E, F in ch:
            n = 'inv_%d_%d' % (E, F)
            code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(inv<%d,%d>(FP<%d,%d>(in))); }\n' % (n, E, F, E, F)
            def ref(i, E=E, F=F): return O.div(one(E, F), dec(i, 'x', E, F))
            def spec(i, o, E=E, F=F, ref=ref): return [('reciprocal is the exact reciprocal rounded to nearest even, special values as specified', NOT(O.same(O.flopoco(E, F, o[0]), ref(i))))]
            def wit(i, ref=ref, E=E, F=F):
                r = ref(i); x = dec(i, 'x', E, F)
                return [('normal', AND(x.normal, r.normal)), ('underflow', AND(x.normal, r.zero)), ('zero argument', AND(x.zero, r.inf))]
            g.job(n, fp_ins((E, F)), 1, spec, witness=wit, cost=3 ** min(F, 10), recur=inv_recur(E, F) if F > 8 else None, config='inv (%d,%d)' % (E, F))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C05', build, bounds=lambda t: 'each listed format, all argument bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
