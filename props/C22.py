"""C22 fused multiply-add: exact product, then the documented two roundings"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/fp_flopoco_fma.hpp"\nusing namespace thls;\n'

def ref(x, y, z, ER, FR):
    E = max(x.E, y.E) + 2; FM = x.F + y.F + 2
    p = O.mul(O.widen(x, E, x.F), O.widen(y, E, y.F), E, FM)      # exact
    ES = E if E > z.E else z.E + 1; FS = max(FM, z.F)
    s = O.add(O.widen(p, ES, FS), O.widen(z, ES, FS))
    return O.convert(s, ER, FR)

def items(tier):
    if tier == 'quick':
        l = [(f, f, f, f) for f in [(4, 3), (4, 4), (5, 5), (4, 8), (5, 10), (8, 7), (6, 2), (3, 4), (7, 13), (8, 23), (4, 5), (6, 6), (9, 4), (5, 12), (6, 16), (4, 20)]]
        l += [((4, 3), (4, 5), (4, 4), (4, 4)), ((4, 3), (5, 4), (6, 7), (5, 5)), ((4, 3), (4, 3), (8, 12), (8, 12)), ((4, 3), (4, 3), (4, 12), (4, 3)), ((3, 3), (3, 3), (5, 8), (6, 8)), ((4, 3), (4, 3), (6, 18), (8, 10)), ((3, 3), (4, 4), (7, 5), (6, 9)), ((4, 3), (6, 4), (4, 4), (8, 5)), ((8, 7), (8, 7), (8, 23), (8, 23)), ((8, 23), (8, 23), (8, 25), (8, 23)), ((8, 23), (8, 24), (8, 23), (8, 23)), ((8, 23), (8, 23), (8, 23), (8, 26)), ((8, 16), (8, 16), (8, 16), (8, 10)), ((5, 10), (5, 10), (8, 23), (8, 23))]
    else:
        l = [(f, f, f, f) for f in [(e, f) for e in (2, 3, 4, 5, 6, 8, 11) for f in (1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 23)]]
        l += [((a, b), (c, d), (e, f), (g, h)) for a, b in ((4, 3), (5, 6)) for c, d in ((4, 4), (6, 3)) for e, f in ((4, 3), (7, 14), (5, 8)) for g, h in ((4, 3), (5, 5), (8, 16))]
        l += [((a, b), (c, d), (e, f), (g, h)) for a, b in ((3, 3), (4, 6)) for c, d in ((4, 3),) for e, f in ((6, 20), (7, 12), (3, 5)) for g, h in ((5, 4), (8, 8), (9, 20))]
        l += [((8, 10), (8, 10), (8, 23), (8, 23)), ((11, 30), (11, 30), (11, 30), (11, 30))]
    return l

def build(tier):
    groups = []
    for k, ch in enumerate(chunks(items(tier), 4)):
        g = Group('fma%d' % k, ''); code = INC
        for x, y, z, r in ch:
            n = 'fma_' + '__'.join('%d_%d' % f for f in (x, y, z, r))
            code += 'VP %s(const u128*in,u128*out){ auto x=FP<%d,%d>(in); auto y=FP<%d,%d>(in+1); auto z=FP<%d,%d>(in+2); out[0]=OUT(fma<%d,%d>(x,y,z)); out[1]=OUT(flopoco_fma<%d,%d>(x,y,z)); }\n' % ((n,) + x + y + z + r + r)
            def R(i, x=x, y=y, z=z, r=r): return ref(dec(i, 'x', *x), dec(i, 'y', *y), dec(i, 'z', *z), *r)
            def spec(i, o, R=R, r=r):
                q = R(i)
                return [('exact product plus third operand, rounded as documented', NOT(O.same(O.flopoco(r[0], r[1], o[0]), q))), ('both entry points agree', NOT(O.same(O.flopoco(r[0], r[1], o[1]), q)))]
            def wit(i, R=R): q = R(i); return [('normal', q.normal), ('zero', q.zero), ('infinity', q.inf), ('nan', q.nan)]
            g.job(n, fp_ins(x, y, z), 2, spec, witness=wit, cost=x[1] + y[1] + z[1], config='fma (%d,%d)*(%d,%d)+(%d,%d)->(%d,%d)' % (x + y + z + r))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C22', build, bounds=lambda t: 'each listed combination of operand and result formats, all bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
