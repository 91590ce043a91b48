"""C03 multiplication is correctly rounded (and exact when the result is wide enough)"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\nusing namespace thls;\n'

def mul_spec(fx, fy, fr):
    def ref(i): return O.mul(dec(i, 'x', *fx), dec(i, 'y', *fy), *fr)
    def spec(i, o):
        return [('product is the exact product rounded to nearest even, special values as specified', NOT(O.same(O.flopoco(fr[0], fr[1], o[0]), ref(i))))]
    def wit(i):
        r = ref(i); x = dec(i, 'x', *fx); y = dec(i, 'y', *fy); nn = AND(x.normal, y.normal)
        return [('normal product', AND(nn, r.normal)), ('overflow', AND(nn, r.inf)), ('underflow', AND(nn, r.zero)), ('invalid', AND(x.zero, y.inf, r.nan))]
    return spec, wit

def items(tier):
    if tier == 'quick':
        l = [(f, f, f) for f in MEDIUM + [f for f in WIDE if f[1] <= 52 and f not in MEDIUM] + [(4, 1), (5, 2)]]
        l += [((4, 3), (4, 3), (4, 6)), ((4, 3), (4, 3), (4, 7)), ((4, 3), (4, 3), (4, 8)), ((4, 3), (4, 5), (4, 10)), ((5, 10), (5, 4), (5, 3)), ((6, 3), (6, 12), (6, 9)), ((8, 23), (8, 23), (8, 47)), ((8, 23), (8, 23), (8, 46)),
              ((8, 23), (8, 10), (8, 23)), ((5, 20), (5, 20), (5, 3)), ((7, 5), (7, 9), (7, 20)), ((4, 30), (4, 3), (4, 31)), ((8, 30), (8, 20), (8, 26)), ((8, 10), (8, 14), (8, 12)), ((8, 26), (8, 27), (8, 26)), ((6, 14), (6, 3), (6, 15)), ((5, 8), (5, 8), (5, 1))]
    else:
        l = [(f, f, f) for f in GRID + [(3, 4), (4, 1), (4, 2), (8, 2), (2, 3), (11, 52), (5, 40), (8, 47), (6, 36)]]
        for E in (4, 5, 8, 11):
            for a, b in ((3, 3), (3, 8), (5, 4), (10, 10), (7, 16), (16, 7), (23, 23), (23, 10), (30, 30)):
                for c in sorted(set([3, 6, a, b, max(a, b) + 1, a + b - 1, a + b, a + b + 1, a + b + 2, a + b + 5])):
                    if c + E + 3 <= 120 and a + b <= 110: l.append(((E, a), (E, b), (E, c)))
    return [x for k, x in enumerate(l) if x not in l[:k]]

def build(tier):
    groups = []
    for k, ch in enumerate(chunks(items(tier), 8)):
        code = INC; g = Group('mul%d' % k, '')
        for fx, fy, fr in ch:
            n = 'mul_%d_%d_%d_%d' % (fx[0], fx[1], fy[1], fr[1])
            code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(mul<%d,%d>(FP<%d,%d>(in),FP<%d,%d>(in+1))); }\n' % ((n,) + fr + fx + fy)
            spec, wit = mul_spec(fx, fy, fr)
            g.job(n, fp_ins(fx, fy), 1, spec, witness=wit, cost=fx[1], config='mul E=%d fractions %d x %d -> %d' % (fx[0], fx[1], fy[1], fr[1]))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C03', build, bounds=lambda t: 'each listed combination of fraction widths (equal exponent widths), all operand bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
