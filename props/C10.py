"""C10 same-format conversion between IEEE containers and the internal format"""
from common import *
from C09 import ieee
INC = '#include "thls/tops/fp_convert.hpp"\nusing namespace thls;\ntemplate<int E,int F> fp_ieee<E,F> IE(const u128*p){ return fp_ieee<E,F>(IN<1+E+F>(p)); }\n'

def build(tier):
    fm = WIDE + [(2, 3), (4, 1), (3, 2), (15, 64), (15, 100)] + ([] if tier == 'quick' else [(E, F) for E in (2, 3, 13, 14, 15) for F in range(4, 100, 3)])
    groups = []
    for k, ch in enumerate(chunks(fm, 9)):
        g = Group('cvi%d' % k, ''); code = INC
        for E, F in ch:
            d = dict(E=E, F=F)
            code += 'VP i2f_%(E)d_%(F)d(const u128*in,u128*out){ fp_flopoco<%(E)d,%(F)d> r; convert(r,IE<%(E)d,%(F)d>(in)); out[0]=OUT(r); fp_ieee<%(E)d,%(F)d> b; convert(b,r); out[1]=OUT(b.bits); }\n' % d
            def spec(i, o, E=E, F=F):
                x = ieee(E, F, i['x']); r = O.flopoco(E, F, o[0]); b = ieee(E, F, o[1])
                return [('same value, subnormals read as zero', NOT(O.same(r, x))), ('round trip through the internal format keeps the number', NOT(O.same(b, x))),
                        ('a number that is not subnormal and not nan survives bit for bit', AND(NOT(x.nan), NOT(AND(x.zero, tm.orr(x.frac))), NOT(eq(extract(E + F, 0, o[1]), i['x']))))]
            g.job('i2f_%d_%d' % (E, F), [('x', E + F + 1)], 2, spec, witness=lambda i, E=E, F=F: [('subnormal', AND(ieee(E, F, i['x']).zero, tm.orr(extract(F - 1, 0, i['x']))))], config='IEEE -> internal -> IEEE (%d,%d)' % (E, F))
            code += 'VP f2i_%(E)d_%(F)d(const u128*in,u128*out){ fp_ieee<%(E)d,%(F)d> r; convert(r,FP<%(E)d,%(F)d>(in)); out[0]=OUT(r.bits); }\n' % d
            def spec2(i, o, E=E, F=F):
                x = dec(i, 'x', E, F); lo = AND(x.normal, NOT(tm.orr(x.exp))); hi = AND(x.normal, NOT(tm.orr(NOT(x.exp))))
                want = O.sel(lo, O.special(E, F, 0, x.sign), O.sel(hi, O.special(E, F, 2, x.sign), x))
                r = ieee(E, F, o[0])
                return [('value kept where the container can hold it, else zero or infinity', NOT(O.same(r, want))),
                        ('zero is encoded as a true zero, never a subnormal', AND(want.zero, tm.orr(extract(F - 1, 0, o[0]))))]
            g.job('f2i_%d_%d' % (E, F), [('x', E + F + 3)], 1, spec2, witness=lambda i, E=E, F=F: [('flushed', AND(dec(i, 'x', E, F).normal, eq(dec(i, 'x', E, F).exp, const(0, E))))], config='internal -> IEEE (%d,%d)' % (E, F))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C10', build, bounds=lambda t: 'each listed format, all argument bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
