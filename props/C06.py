"""C06 the Newton reciprocal is faithful (one of the two neighbours of the exact value)"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\nusing namespace thls;\n'

def faithful_bad(i, o, E, FY, FR):
    y = dec(i, 'x', E, FY); r = O.flopoco(E, FR, o[0])
    w = FR + FY + 4
    one = const(1 << (FR + 1 + FY), w)
    ys = zext(y.sig, w)
    ew = E + 3
    c0 = tm.sub(const(2 * O.bias(E) - 1, ew), zext(y.exp, ew))     # exponent code of the binade below 1/2^ey
    re = zext(r.exp, ew)
    exact1 = eq(y.frac, const(0, FY))
    low = eq(re, c0); high = AND(eq(re, tm.add(c0, const(1, ew))), eq(r.frac, const(0, FR)))
    T = ite(low, zext(r.sig, w), const(2 << FR, w))
    near = AND(ult(tm.mul(tm.sub(T, const(1, w)), ys), one), ult(one, tm.mul(tm.add(T, const(1, w)), ys)))
    ok_norm = AND(r.normal, eq(r.sign, y.sign), ite(exact1, high, AND(OR(low, high), near)))
    uf = ite(exact1, bit(tm.add(c0, const(1, ew)), ew - 1), bit(c0, ew - 1))
    ok_zero = AND(r.zero, eq(r.sign, y.sign), uf)
    ok = OR(AND(y.normal, OR(ok_norm, ok_zero)), AND(y.zero, r.inf, eq(r.sign, y.sign)), AND(y.inf, r.zero, eq(r.sign, y.sign)), AND(y.nan, r.nan))
    return NOT(ok)

def build(tier):
    q = tier == 'quick'
    fm = [(4, 3, 3), (5, 6, 6), (8, 7, 7), (8, 8, 8), (5, 9, 9), (8, 10, 10), (6, 8, 10), (6, 10, 8), (4, 6, 9), (4, 12, 5), (8, 6, 14), (11, 9, 14), (5, 11, 13), (2, 4, 4), (3, 9, 7), (8, 14, 14), (8, 15, 15), (5, 16, 16), (8, 12, 18)] if q else \
         [(E, a, b) for E in (4, 8) for a in range(3, 15) for b in range(max(3, a - 4), min(20, a + 6))] + \
         [(8, 15, 15), (8, 16, 16), (8, 16, 18), (8, 17, 17), (8, 18, 18), (8, 18, 14), (8, 18, 20), (8, 19, 19), (8, 20, 20), (8, 22, 16)]
    dm = [(5, 3, 3), (8, 7, 7), (8, 7, 10), (8, 8, 5), (4, 6, 6), (6, 9, 9)] if q else [(E, a, b) for E in (3, 8) for a in range(3, 12) for b in range(3, 15)]
    groups = []
    def bits(FY): return 0 if FY < 9 else 3 if FY <= 10 else 4 if FY <= 12 else 5 if FY <= 18 else 6
    for k, ch in enumerate(chunks(fm, 2 if q else 5)):
        g = Group('invf%d' % k, ''); code = INC
        for E, FY, FR in ch:
            n = 'invf_%d_%d_%d' % (E, FY, FR)
            code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(inv_faithful<%d,%d>(FP<%d,%d>(in))); }\n' % (n, E, FR, E, FY)
            def spec(i, o, E=E, FY=FY, FR=FR): return [('reciprocal is one of the two representable neighbours of the exact reciprocal', faithful_bad(i, o, E, FY, FR))]
            kw = {}; tb = bits(FY)
            if tb: kw['cubes'] = lambda i, FY=FY, tb=tb: [eq(extract(FY - 1, FY - tb, i['x']), const(v, tb)) for v in range(1 << tb)]
            g.job(n, fp_ins((E, FY)), 1, spec, cost=3 ** FY, config='table-and-Newton reciprocal (%d,%d)->(%d,%d)' % (E, FY, E, FR), **kw)
            if tb: g.jobs[-1].ncubes = 1 << tb
        g.code = code; groups.append(g)
    for k, ch in enumerate(chunks(dm, 6 if q else 12)):
        g = Group('invd%d' % k, ''); code = INC
        for E, FY, FR in ch:
            n = 'invd_%d_%d_%d' % (E, FY, FR)
            code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(inv_direct<%d,%d,%d,%d>(FP<%d,%d>(in),0)); }\n' % (n, E, FR, E, FY, E, FY)
            def spec(i, o, E=E, FY=FY, FR=FR): return [('table reciprocal is one of the two representable neighbours of the exact reciprocal', faithful_bad(i, o, E, FY, FR))]
            g.job(n, fp_ins((E, FY)), 1, spec, cost=FY, config='direct table reciprocal (%d,%d)->(%d,%d)' % (E, FY, E, FR))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C06', build, bounds=lambda t: 'each listed format pair, all argument bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
