"""C24 four-term positive dot product: exact sum of the four exact products, rounded towards zero"""
from common import *
from C23 import positive, prod
from C17 import lz

NAMES = ['a0', 'a1', 'a2', 'a3', 'b0', 'b1', 'b2', 'b3']

def order(P):
    """comparisons deciding which exponent is the largest, and the index order (largest first, cyclic)"""
    e = [x[1] for x in P]
    b01 = ult(e[0], e[1]); b23 = ult(e[2], e[3])
    m01 = ite(b01, e[1], e[0]); m23 = ite(b23, e[3], e[2])
    return b01, b23, ult(m01, m23)

def reference(P, E, F):
    """aligned to the largest exponent with room for every possible shift: nothing is ever lost"""
    b01, b23, bb = order(P)
    def cyc(k, r): return P[(k + r) % 4]
    def pick(r, what):
        g = lambda k: cyc(k, r)[what]
        return ite(bb, ite(b23, g(3), g(2)), ite(b01, g(1), g(0)))
    X = 2 * ((1 << E) - 1)
    W = 2 * F + 2 + X + 2
    e0 = pick(0, 1); s = const(0, W)
    for r in range(4):
        s = tm.add(s, tm.lshr(zext(concat(pick(r, 0), const(0, X)), W), zext(tm.sub(e0, pick(r, 1)), max(W.bit_length(), E + 1))))
    # the leading one is among the top four bits
    z1 = bit(s, W - 1); z2 = bit(s, W - 2); z3 = bit(s, W - 3)
    n = ite(z1, s, ite(z2, concat(extract(W - 2, 0, s), const(0, 1)), ite(z3, concat(extract(W - 3, 0, s), const(0, 2)), concat(extract(W - 4, 0, s), const(0, 3)))))
    ew = E + 6
    l = ite(z1, const(3, ew), ite(z2, const(2, ew), ite(z3, const(1, ew), const(0, ew))))
    e = tm.add(tm.add(zext(e0, ew), l), const(-O.bias(E), ew))
    return O.round_pack(E, F, const(0, 1), n, e, rnd='rz')

def items(tier):
    if tier == 'quick': return [(3, 1), (3, 2), (3, 3), (4, 2), (4, 3), (4, 4), (5, 5), (3, 4), (6, 3), (4, 6), (5, 7), (8, 4)] + [(2, F) for F in range(8, 21)] + [(3, F) for F in (8, 9, 10, 13, 16, 17, 20)] + [(4, 8)]
    return [(e, f) for e in (2, 3, 4, 5, 6) for f in (1, 2, 3, 4, 5, 6, 7, 8)] + [(6, 16), (8, 7), (5, 10), (6, 12), (6, 19), (6, 20), (8, 20)] + [(e, f) for e in (2, 3) for f in range(9, 21)]

def build(tier):
    groups = []
    for k, ch in enumerate(chunks(items(tier), 2)):
        g = Group('dotq_%d' % k, ''); code = '#include "thls/tops/fp_flopoco_dot4_pos_rndd.hpp"\nusing namespace thls;\n'
        for E, F in ch:
            n = 'dot4_%d_%d' % (E, F)
            code += 'VP %s(const u128*in,u128*out){ %s out[0]=OUT(dot4_pos_rndd<%d,%d>(%s)); }\n' % (n, ' '.join('auto %s=FP<%d,%d>(in+%d);' % (q, E, F, t) for t, q in enumerate(NAMES)), E, F, ','.join(NAMES))
            def D(i, E=E, F=F): return [dec(i, q, E, F) for q in NAMES]
            def P(i, D=D):
                d = D(i); return [prod(x, y) for x, y in zip(d[:4], d[4:])]
            def R(i, E=E, F=F, P=P): return reference(P(i), E, F)
            def pre(i, D=D): return AND(*[positive(x) for x in D(i)])
            def cubes(i, P=P):
                b01, b23, bb = order(P(i))
                return [AND(x, y, z) for x in (b01, NOT(b01)) for y in (b23, NOT(b23)) for z in (bb, NOT(bb))]
            def cut(i, P=P, F=F): return [(p, lambda v: tm.orr(extract(2 * F + 1, 2 * F, v))) for p, e in P(i)]
            def spec(i, o, R=R, E=E, F=F):
                q = R(i); r = O.flopoco(E, F, o[0])
                return [('class of the result', NOT(eq(r.flags, q.flags))), ('sign of the result', bit(o[0], E + F)), ('exact sum rounded down', AND(q.normal, NOT(O.same(r, q))))]
            def wit(i, R=R, E=E): q = R(i); return [('normal', q.normal), ('infinity', q.inf)] + ([('zero', q.zero)] if E > 2 else [])
            j = g.job(n, [(q, E + F + 3) for q in NAMES], 1, spec, pre=pre, cubes=cubes, cut=cut, witness=wit, cost=F * 2, config='dot4 (%d,%d)' % (E, F))
            j.ncubes = 8
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C24', build, bounds=lambda t: 'each listed format, all positive normal operands', assumptions=['operands are positive and normal, as the operation demands', 'clang lowers the instantiation to LLVM IR faithfully'])
