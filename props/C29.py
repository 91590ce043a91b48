"""C29 no operator aborts, fails an assertion or has undefined behaviour, for any operand bits (safety obligations only)"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/fp_flopoco_div_v2.hpp"\n#include "thls/tops/fp_flopoco_fma.hpp"\n#include "thls/tops/fp_flopoco_ordering.hpp"\n#include "thls/tops/policy_ieee_on_flopoco.hpp"\nusing namespace thls;\n'
X, Y, Z = ('FP<%(E)d,%(F)d>(in' + s + ')' for s in ('', '+1', '+2'))
OPS = {
 'add': 'OUT(add<%(E)d,%(F)d>(x,y))', 'mul': 'OUT(mul<%(E)d,%(F)d>(x,y))', 'mulw': 'OUT(mul<%(E)d,%(G)d>(x,y))', 'muln': 'OUT(mul<%(E)d,3>(x,y))',
 'div': 'OUT(div<%(E)d,%(F)d>(x,y))', 'div2': 'OUT(div_v2<%(E)d,%(F)d>(x,y,0))', 'inv': 'OUT(inv<%(E)d,%(F)d>(x))',
 'fma': 'OUT(fma<%(E)d,%(F)d>(x,y,z))', 'neg': 'OUT(neg<%(E)d,%(F)d>(x))', 'cmp': '(unsigned)(OUT(less_than(x,y))+OUT(less_than_equal(x,y))+OUT(greater_than(x,y))+OUT(greater_than_equal(x,y))+OUT(equal(x,y))+OUT(not_equal(x,y)))',
 'step': '(unsigned)(OUT(nextup(x).bits)+OUT(nextdown(x).bits)+OUT(x.within_1ulp(y))+OUT(x.equals(y)))',
 'cls': '(unsigned)(OUT(x.is_zero())+OUT(x.is_normal())+OUT(x.is_inf())+OUT(x.is_nan())+OUT(x.get_equality_class())+OUT(x.is_neg_normal()))',
 'mixed': 'OUT(add<%(E2)d,%(F2)d>(x,FP<%(E2)d,%(F2)d>(in+1)))', 'mixdiv': 'OUT(div<%(E2)d,%(F2)d>(FP<%(E2)d,%(F2)d>(in+1),x))',
}
def build(tier):
    q = tier == 'quick'
    fm = [(4, 3), (5, 10), (8, 7), (8, 23), (11, 52), (12, 32), (4, 30), (9, 17), (6, 2), (10, 47), (7, 29), (4, 4), (5, 6), (6, 12), (8, 15), (5, 20), (7, 24), (11, 26), (12, 3), (7, 61), (8, 58), (11, 62), (8, 33), (6, 45), (7, 57), (13, 8), (15, 31)] if q else GRID[::3] + [(E, F) for F in range(33, 63) for E in (5, 6, 7, 8, 11)] + [(E, F) for E in (4, 8, 11, 15) for F in (1, 2, 36, 44, 47, 52, 55)]
    groups = []
    for k, (E, F) in enumerate(fm):
        g = Group('safe%d' % k, ''); code = INC
        d = dict(E=E, F=F, G=2 * F + 1, E2=E + 2, F2=F + 3)
        ins = [('x', E + F + 3), ('y', E + F + 3), ('z', E + F + 3)]
        for n in sorted(OPS):
            if n == 'mulw' and E + d['G'] + 3 > 120 or n in ('mixed', 'mixdiv') and F > 58: continue
            if n == 'fma' and F > 30 or n == 'add' and F < 2: continue    # the adder needs two fraction bits

            e = '%s_%d_%d' % (n, E, F)
            code += 'VP %s(const u128*in,u128*out){ auto x=%s,y=%s,z=%s; out[0]=%s; }\n' % (e, X % d, Y % d, Z % d, OPS[n] % d)
            ii = list(ins)
            if n in ('mixed', 'mixdiv'): ii[1] = ('y', d['E2'] + d['F2'] + 3)
            if n in ('mixed', 'mixdiv'):
                code = code.replace('VP %s(const u128*in,u128*out){ auto x=%s,y=%s,z=%s;' % (e, X % d, Y % d, Z % d), 'VP %s(const u128*in,u128*out){ auto x=%s;' % (e, X % d))
            g.job(e, ii, 1, lambda i, o: [], safety_only=True, cost=F, config='%s (%d,%d): safety' % (n, E, F))
        for (a, b) in [(4, 3), (8, 23), (11, 52), (5, F), (E, max(1, F - 4))]:
            e = 'cv_%d_%d__%d_%d' % (E, F, a, b)
            if 'VP %s(' % e in code: continue
            code += 'VP %s(const u128*in,u128*out){ fp_flopoco<%d,%d> r; convert(r,FP<%d,%d>(in)); out[0]=OUT(r.bits); fp_ieee<%d,%d> s; convert(s,FP<%d,%d>(in)); out[1]=OUT(s.bits); }\n' % (e, a, b, E, F, E, F, E, F)
            g.job(e, ins[:1], 2, lambda i, o: [], safety_only=True, cost=1, config='convert (%d,%d)->(%d,%d): safety' % (E, F, a, b))
        if F <= 40:
            code += 'VP ie_%(E)d_%(F)d(const u128*in,u128*out){ fp_ieee<%(E)d,%(F)d> a(IN<1+%(E)d+%(F)d>(in)); fp_flopoco<%(E)d,%(F)d> r; convert(r,a); out[0]=OUT(r.bits); }\n' % d
            g.job('ie_%d_%d' % (E, F), [('a', 1 + E + F)], 1, lambda i, o: [], safety_only=True, cost=1, config='from IEEE (%d,%d): safety' % (E, F))
        g.code = code; groups.append(g)
    vf = [('v1', 'fp_flopoco_add_single_v1', 'add_single'), ('v2', 'fp_flopoco_add_single_v2', 'add_single'), ('v3', 'fp_flopoco_add_single_v3', 'add_single'), ('v4', 'fp_flopoco_add_single_v4', 'add_single'), ('v5', 'fp_flopoco_add_single_v5', 'add_single_v5')]
    for v, hdr, fn in vf:
        g = Group('safe_%s' % v, ''); code = '#include "thls/tops/%s.hpp"\nusing namespace thls;\n' % hdr
        for E, F in [(4, 12), (5, 17), (8, 23), (4, 26), (11, 20)] if q else [(E, F) for E in (4, 6, 8, 12) for F in range(11, 27)]:
            e = 'as%s_%d_%d' % (v, E, F)
            code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(%s<%d,%d>(FP<%d,%d>(in),FP<%d,%d>(in+1))); }\n' % ((e, fn) + (E, F) * 3)
            g.job(e, [('x', E + F + 3), ('y', E + F + 3)], 1, lambda i, o: [], safety_only=True, cost=F, config='single-path adder %s (%d,%d): safety' % (v, E, F))
        g.code = code; groups.append(g)
    for n in (2, 4):
        g = Group('safe_dot%d' % n, ''); code = '#include "thls/tops/fp_flopoco_primitives.hpp"\n#include "thls/tops/fp_flopoco_dot%d_pos_rndd.hpp"\nusing namespace thls;\n' % n
        for E, F in ([(4, 3), (5, 10), (8, 12)] + [(8, 23)] * (n == 2)) if q else [(E, F) for E in (4, 5, 8, 11) for F in ((3, 4, 7, 10, 16, 23, 30) if n == 2 else (3, 4, 7, 10, 13, 16))]:
            e = 'dot%d_%d_%d' % (n, E, F); nm = ['x', 'y', 'z', 'u', 'v', 'w', 's', 't'][:2 * n]
            code += 'VP %s(const u128*in,u128*out){ fp_flopoco<%d,%d> r; r=dot%d_pos_rndd<%d,%d>(%s); out[0]=OUT(r.bits); }\n' % (e, E, F, n, E, F, ','.join('FP<%d,%d>(in+%d)' % (E, F, j) for j in range(2 * n)))
            g.job(e, [(a, E + F + 3) for a in nm], 1, lambda i, o: [], safety_only=True, cost=F, config='%d-term dot product (%d,%d): safety, positive normal operands' % (n, E, F),
                  pre=lambda i, nm=nm, E=E, F=F: AND(*[eq(extract(E + F + 2, E + F, i[a]), const(2, 3)) for a in nm]))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C29', build, bounds=lambda t: 'each listed operator and format, all operand bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully', 'assertions and -fsanitize traps mark the bad points'])
