"""C11 ordering comparisons agree with the real-number order and with each other"""
from common import *
INC = '#include "thls/tops/fp_flopoco_ordering.hpp"\nusing namespace thls;\n'
OPS = ['equal', 'not_equal', 'less_than', 'less_than_equal', 'greater_than', 'greater_than_equal']

def key(x, E, F):
    """order-preserving signed integer; equal keys <=> equal numbers (nan excluded); format already common"""
    w = E + F + 2
    m = ite(x.zero, const(0, w), ite(x.inf, const((1 << (E + F)) + 1, w), tm.add(zext(x.mag, w), const(1, w))))
    return ite(x.sign, tm.neg(m), m)

def slt(a, b):
    f = const(1 << (a.w - 1), a.w)
    return ult(tm.bxor(a, f), tm.bxor(b, f))

def items(tier):
    fm = WIDE + [(4, 1), (2, 2), (2, 3), (15, 100)]
    l = [(f, f) for f in fm]
    mixed = [((4, 3), (4, 6)), ((4, 6), (4, 3)), ((5, 10), (8, 7)), ((8, 7), (5, 10)), ((8, 23), (11, 52)), ((6, 4), (9, 20)), ((5, 22), (7, 13))]
    if tier != 'quick': mixed += [(a, b) for a in SPREAD for b in SPREAD if a != b]
    return l + mixed

def build(tier):
    groups = []
    for k, ch in enumerate(chunks(items(tier), 8)):
        g = Group('ord%d' % k, ''); code = INC
        for a, b in ch:
            n = 'ord_%d_%d__%d_%d' % (a + b)
            code += 'VP %s(const u128*in,u128*out){ auto x=FP<%d,%d>(in); auto y=FP<%d,%d>(in+1);\n' % ((n,) + a + b)
            code += ''.join(' out[%d]=OUT(%s(x,y));' % (j, op) for j, op in enumerate(OPS)) + ' }\n'
            def spec(i, o, a=a, b=b):
                E, F = max(a[0], b[0]), max(a[1], b[1])
                x = O.widen(dec(i, 'x', *a), E, F); y = O.widen(dec(i, 'y', *b), E, F)
                un = OR(x.nan, y.nan); kx, ky = key(x, E, F), key(y, E, F)
                lt, e = slt(kx, ky), eq(kx, ky)
                want = [AND(NOT(un), e), OR(un, NOT(e)), AND(NOT(un), lt), AND(NOT(un), OR(lt, e)), AND(NOT(un), NOT(OR(lt, e))), AND(NOT(un), NOT(lt))]
                return [('%s follows the order of the represented numbers' % OPS[j], tm.bxor(bit(o[j], 0), want[j])) for j in range(6)]
            def wit(i, a=a, b=b):
                x = dec(i, 'x', *a); y = dec(i, 'y', *b)
                return [('opposite zeros', AND(x.zero, y.zero, tm.bxor(x.sign, y.sign))), ('negative normals', AND(x.normal, y.normal, x.sign, y.sign)), ('two infinities', AND(x.inf, y.inf)), ('unordered', AND(x.nan, y.normal))]
            g.job(n, fp_ins(a, b), 6, spec, witness=wit, config='comparisons x:(%d,%d) y:(%d,%d)' % (a + b))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C11', build, bounds=lambda t: 'each listed format pair, all bit patterns of both operands', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
