"""C01 addition is correctly rounded"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\nusing namespace thls;\n'

def add_spec(fx, fy, E, F):
    def ref(i):
        x = O.widen(dec(i, 'x', *fx), E, F); y = O.widen(dec(i, 'y', *fy), E, F)
        return O.add(x, y)
    def spec(i, o):
        return [('sum is the exact sum rounded to nearest even, special values as specified', NOT(O.same(O.flopoco(E, F, o[0]), ref(i))))]
    def wit(i):
        r = ref(i); x = dec(i, 'x', *fx); y = dec(i, 'y', *fy); nn = AND(x.normal, y.normal)
        return ([('overflow', AND(nn, r.inf))] if fx == fy else []) + [('normal sum of normals', AND(nn, r.normal)), ('underflow or cancellation', AND(nn, r.zero)), ('invalid', AND(x.inf, y.inf, r.nan))]
    return spec, wit

def build(tier):
    fm = MEDIUM if tier == 'quick' else GRID + [(4, 2), (8, 2), (11, 52), (5, 40), (8, 47), (6, 36)]
    if tier == 'quick': fm = fm + [(4, 2), (5, 2), (11, 52), (8, 35), (9, 41), (8, 45), (7, 57), (8, 59), (7, 61)]
    mixed = [((4, 3), (4, 6)), ((4, 6), (4, 3)), ((4, 5), (6, 5)), ((7, 5), (4, 5)), ((4, 8), (6, 5)), ((8, 7), (5, 10)), ((8, 23), (5, 10)), ((6, 4), (9, 20))]
    if tier != 'quick':
        mixed += [((a, b), (c, d)) for a in (4, 5, 8) for c in (4, 6, 8) for b in (3, 8, 15) for d in (4, 9, 15) if (a, b) != (c, d)]
    items = [(f, f) for f in fm] + mixed
    groups = []
    for k, ch in enumerate(chunks(items, 6)):
        code = INC; g = Group('add%d' % k, '')
        for (fx, fy) in ch:
            E = max(fx[0], fy[0]); F = max(fx[1], fy[1])
            n = 'add_%d_%d' % fx if fx == fy else 'add_%d_%d__%d_%d' % (fx + fy)
            code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(add<%d,%d>(FP<%d,%d>(in),FP<%d,%d>(in+1))); }\n' % ((n, E, F) + fx + fy)
            spec, wit = add_spec(fx, fy, E, F)
            g.job(n, fp_ins(fx, fy), 1, spec, witness=wit, cost=F, config='add x:(%d,%d) y:(%d,%d)' % (fx + fy))
        g.code = code; groups.append(g)
    return groups

BOUNDS = lambda tier: 'each listed (exponent width, fraction width) pair, all bit patterns of both operands; other widths are outside the claim'
if __name__ == '__main__':
    main('C01', build, bounds=BOUNDS, assumptions=['clang lowers the instantiation to LLVM IR faithfully', 'reference adder cross-validated against SMT-LIB FloatingPoint on small formats (selfcheck.py)'])
