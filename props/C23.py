"""C23 two-term positive dot product: exact sum of the two exact products, rounded towards zero"""
from common import *
from C17 import lz
N = 2

def prod(x, y):
    """exact product as (significand of F+F+2 bits, sum of the biased exponents)"""
    pw = x.F + y.F + 2
    return tm.mul(zext(x.sig, pw), zext(y.sig, pw)), tm.add(zext(x.exp, x.E + 1), zext(y.exp, y.E + 1))

def pack_down(E, F, n, lzc, e0):
    """n: normalised bits; leading one has biased exponent e0 - lzc; rounded towards zero, then saturated"""
    ew = max(e0.w, lzc.w) + 2
    e = tm.sub(zext(e0, ew), zext(lzc, ew))
    return O.round_pack(E, F, const(0, 1), n, e, rnd='rz')

def exact(pairs, E, F):
    """fixed point with the full exponent range: nothing is ever lost"""
    mx = 2 * ((1 << E) - 1); W = 2 * F + 2 + mx + len(pairs).bit_length()
    s = const(0, W)
    for x, y in pairs:
        p, e = prod(x, y)
        s = tm.add(s, tm.shl(zext(p, W), e))
    c, n = lz(s)
    # bit k of s weighs 2^(k-2F-2bias); biased exponent of the leading one = k-2F-bias
    ew = max(W.bit_length(), E) + 4
    e = tm.sub(const(W - 1 - 2 * F - O.bias(E), ew), zext(c, ew))
    return O.round_pack(E, F, const(0, 1), n, e, rnd='rz')

def capped(pairs, E, F):
    """two products: the smaller one is kept exactly up to a shift of 2F+4, and as a sticky bit beyond"""
    (p0, e0), (p1, e1) = [prod(x, y) for x, y in pairs]
    sw = ult(e0, e1)
    P = ite(sw, p1, p0); Q = ite(sw, p0, p1); e = ite(sw, e1, e0); d = tm.sub(e, ite(sw, e0, e1))
    pw = p0.w; X = 2 * F + 4; W = pw + X + 1
    d = zext(d, max(d.w, X.bit_length() + 1)); big = ult(const(X, d.w), d)
    q = concat(Q, const(0, X)); q = ite(big, const(1, pw + X), tm.lshr(q, d))
    s = tm.box(tm.add(zext(concat(P, const(0, X)), W), zext(tm.box(q), W)))
    # P is at least one half of its width: the leading one of the sum is among the top three bits
    z1 = bit(s, W - 1); z2 = bit(s, W - 2); ew = E + 6
    n = ite(z1, s, ite(z2, concat(extract(W - 2, 0, s), const(0, 1)), concat(extract(W - 3, 0, s), const(0, 2))))
    c = ite(z1, const(0, ew), ite(z2, const(1, ew), const(2, ew)))
    ee = tm.sub(tm.add(zext(e, ew), const(W - 1 - 2 * F - X - O.bias(E), ew)), c)
    return O.round_pack(E, F, const(0, 1), n, ee, rnd='rz')

def positive(x): return AND(x.normal, NOT(x.sign))

def items(tier):
    if tier == 'quick':
        return [(3, 3, 'x'), (4, 3, 'x'), (4, 5, 'x'), (3, 8, 'x'), (5, 4, 'x'), (5, 7, 'c'), (6, 4, 'c'), (8, 7, 'c'), (6, 10, 'c'), (5, 16, 'c'), (8, 23, 'c'), (4, 29, 'c'), (4, 2, 'x'), (3, 5, 'x'), (4, 7, 'x'), (7, 6, 'c'), (9, 12, 'c'), (4, 14, 'c'), (6, 20, 'c'), (8, 22, 'c'), (8, 24, 'c'), (5, 10, 'c'), (8, 33, 'c'), (6, 40, 'c'), (11, 52, 'c'), (3, 60, 'c'), (4, 54, 'c')] + [(3 + F % 4, F, 'c') for F in range(9, 49) if F not in (10, 12, 16, 20, 22, 23, 24, 29, 33, 40)]
    return [(e, f, 'x') for e in (2, 3, 4, 5) for f in (1, 2, 3, 4, 5, 6, 8, 10, 12)] + [(e, f, 'c') for e in (2, 3, 4, 5, 6, 8, 11) for f in (1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16, 19, 23, 28, 29, 30, 31, 40, 52)]

def build(tier):
    groups = []
    for k, ch in enumerate(chunks(items(tier), 4)):
        g = Group('dot%d_%d' % (N, k), ''); code = '#include "thls/tops/fp_flopoco_dot2_pos_rndd.hpp"\nusing namespace thls;\n'
        for E, F, m in ch:
            n = 'dot2_%d_%d_%s' % (E, F, m)
            code += 'VP %s(const u128*in,u128*out){ auto a0=FP<%d,%d>(in); auto a1=FP<%d,%d>(in+1); auto b0=FP<%d,%d>(in+2); auto b1=FP<%d,%d>(in+3); out[0]=OUT(dot2_pos_rndd<%d,%d>(a0,a1,b0,b1)); }\n' % ((n,) + (E, F) * 5)
            names = ('a0', 'a1', 'b0', 'b1')
            def D(i, E=E, F=F): return [dec(i, q, E, F) for q in names]
            def R(i, E=E, F=F, m=m):
                a0, a1, b0, b1 = D(i, E, F)
                return (exact if m == 'x' else capped)([(a0, b0), (a1, b1)], E, F)
            def pre(i, E=E, F=F): return AND(*[positive(x) for x in D(i, E, F)])
            def spec(i, o, R=R, E=E, F=F):
                q = R(i); r = O.flopoco(E, F, o[0])
                return [('class of the result', NOT(eq(r.flags, q.flags))), ('sign of the result', bit(o[0], E + F)), ('exact sum rounded down', AND(q.normal, NOT(O.same(r, q))))]
            def wit(i, R=R): q = R(i); return [('normal', q.normal), ('zero', q.zero), ('infinity', q.inf)]
            g.job(n, [(q, E + F + 3) for q in names], 1, spec, pre=pre, witness=wit, cost=F * 2, config='dot2 (%d,%d), %s' % (E, F, 'exact fixed-point reference' if m == 'x' else 'capped-shift reference'))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C23', build, bounds=lambda t: 'each listed format, all positive normal operands', assumptions=['operands are positive and normal, as the operation demands', 'clang lowers the instantiation to LLVM IR faithfully'])
