"""C04 division (both dividers) is correctly rounded"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/fp_flopoco_div_v2.hpp"\nusing namespace thls;\n'

def div_spec(fx, fy, E, F, yc=None):
    def ref(i):
        y = O.flopoco(fy[0], fy[1], i['y'] if yc is None else concat(i['y'], const(yc, fy[1])))
        return O.div(O.widen(dec(i, 'x', *fx), E, F), O.widen(y, E, F))
    def spec(i, o):
        return [('quotient is the exact quotient rounded to nearest even, special values as specified', NOT(O.same(O.flopoco(E, F, o[0]), ref(i))))]
    def wit(i):
        x = dec(i, 'x', *fx); r = ref(i)
        return [('normal quotient', AND(x.normal, r.normal)), ('infinite quotient', AND(x.normal, r.inf)), ('zero quotient', AND(x.normal, r.zero)), ('invalid', AND(x.zero, r.nan))]
    return spec, wit

def build(tier):
    q = tier == 'quick'
    full = [(4, 3), (5, 4), (4, 5), (6, 6), (8, 3), (4, 7), (3, 4)] if q else [(E, F) for E in (3, 4, 5, 8, 11) for F in range(3, 8)] + [(4, 8), (5, 8), (8, 8), (11, 8), (5, 9)]
    mixed = [((4, 3), (4, 6)), ((4, 6), (4, 3)), ((6, 5), (4, 5)), ((4, 4), (7, 5))] if q else [((a, b), (c, d)) for a in (4, 6) for c in (4, 5, 8) for b in (3, 4, 7) for d in (3, 5, 6) if (a, b) != (c, d)]
    consts = [(5, 10, 0), (5, 10, 341), (5, 10, 1023), (8, 14, 9001), (8, 16, 1), (8, 23, 0), (8, 23, 1), (8, 23, (1 << 23) - 1), (8, 23, 3 << 21), (11, 30, 1), (11, 32, (1 << 32) - 1), (6, 17, 1 << 16)] + [(E, F, c) for E, F in ((8, 28), (5, 29)) for c in (0, 1, (1 << F) - 1, 3 << (F - 2), 1 << (F - 1), 1 << 5)]
    if not q:
        import random
        r = random.Random(7)
        for E, F in [(5, 9), (5, 10), (6, 11), (6, 12), (8, 13), (8, 14)]:
            consts += [(E, F, c) for c in sorted(set([1, 2, 3, (1 << F) - 2, 1 << (F - 1), (1 << (F - 1)) - 1, (1 << F) // 3, (1 << F) * 2 // 3] + [r.randrange(1 << F) for _ in range(8)]))]
        for F in (18, 19, 20, 22, 23, 24, 26, 28, 29, 30, 31, 32): consts += [(8, F, c) for c in (0, 1, 2, 3 << (F - 2), 1 << (F - 1), (1 << F) - 1, (1 << F) - 2)]
    wide = [((E, F),) * 2 for E, F in ([(5, 10), (8, 23), (6, 17), (11, 52), (4, 9), (7, 12), (5, 14), (9, 20), (6, 22), (4, 24), (10, 27), (12, 31)] + [(4 + (5 * F) % 9, F) for F in range(9, 33) if F not in (9, 10, 12, 14, 17, 20, 22, 23, 24, 27, 28, 29, 31, 32)] + [(8, 32), (8, 36), (11, 40), (9, 47), (11, 53)] if q else [(5, 9), (5, 10), (6, 11), (6, 12), (8, 13)] + [(4 + F % 9, F) for F in range(14, 33) if F not in (28, 29)] + [(8, 23), (11, 40), (11, 47), (11, 52), (11, 53), (15, 54)])]
    groups = []
    for v in ('v1', 'v2'):
        fn = (lambda E, F, a, b: 'div<%d,%d>(%s,%s)' % (E, F, a, b)) if v == 'v1' else (lambda E, F, a, b: 'div_v2<%d,%d>(%s,%s,0)' % (E, F, a, b))
        items = [(f, f) for f in full] + mixed
        if q and v == 'v2': items = [((4, 3),) * 2, ((6, 4),) * 2, ((5, 5),) * 2, ((4, 6),) * 2, ((4, 3), (4, 5)), ((5, 5), (6, 3))]
        if q and v == 'v1': items.append(((5, 8), (5, 8)))
        if q and v == 'v2': wd = [w for w in wide if w[0][1] <= 32]
        else: wd = wide
        for k, ch in enumerate(chunks(items, 3) + chunks(wd, 2)):
            g = Group('div_%s_%d' % (v, k), ''); code = INC
            for fx, fy in ch:
                E = max(fx[0], fy[0]); F = max(fx[1], fy[1])
                n = 'div_%s_%d_%d__%d_%d' % ((v,) + fx + fy)
                code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(%s); }\n' % (n, fn(E, F, 'FP<%d,%d>(in)' % fx, 'FP<%d,%d>(in+1)' % fy))
                spec, wit = div_spec(fx, fy, E, F)
                g.job(n, fp_ins(fx, fy), 1, spec, witness=wit, cost=4 ** min(F, 9), recur=div_recur(fx, fy, E, F) if F > 8 else None, config='div %s x:(%d,%d) y:(%d,%d), all operands' % ((v,) + fx + fy))
            g.code = code; groups.append(g)
        for k, ch in enumerate(chunks([c for c in consts if not q or v == 'v1' or c[1] in (14, 23, 28, 29, 30)], 8)):
            g = Group('divc_%s_%d' % (v, k), ''); code = INC
            for E, F, c in ch:
                n = 'divc_%s_%d_%d_%d' % (v, E, F, c)
                code += 'VP %s(const u128*in,u128*out){ auto y=concat(IN<%d>(in+1),fw_uint<%d>::from_uint64(%dull)); out[0]=OUT(%s); }\n' % (
                    n, E + 3, F, c, fn(E, F, 'FP<%d,%d>(in)' % (E, F), 'fp_flopoco<%d,%d>(y)' % (E, F)))
                spec, wit = div_spec((E, F), (E, F), E, F, c)
                g.job(n, [('x', E + F + 3), ('y', E + 3)], 1, spec, witness=wit, cost=F, config='div %s (%d,%d), all dividends and divisors with fraction field %d' % (v, E, F, c))
            g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C04', build, bounds=lambda t: 'each listed format, all operand bit patterns (fractions over 8 bits: by induction over the remainders of the digit recurrence; additionally, directly, all dividends and divisor exponents for the listed divisor fractions)', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
