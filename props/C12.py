"""C12 neighbours: nextup / nextdown / nextafter are the adjacent representable numbers, within_1ulp is adjacency"""
from common import *
from C11 import key, slt
INC = '#include "thls/tops/fp_flopoco.hpp"\nusing namespace thls;\n'

def step(x, E, F, up):
    """one step along -inf,-max..-min,-0,+0,min..max,inf (saturating at the ends), nan stays nan"""
    w = E + F + 3
    # line position: non-negatives 0.., negatives -1.. (so -0 is -1)
    m = ite(x.zero, const(0, w), ite(x.inf, const((1 << (E + F)) + 1, w), tm.add(zext(x.mag, w), const(1, w))))
    end = AND(x.inf, x.sign if not up else NOT(x.sign))
    away = NOT(x.sign) if up else x.sign               # magnitude grows
    m2 = ite(end, m, ite(away, tm.add(m, const(1, w)), ite(x.zero, m, tm.sub(m, const(1, w)))))
    sg = ite(AND(x.zero, NOT(away)), NOT(x.sign), x.sign)
    z = eq(m2, const(0, w)); inf = eq(m2, const((1 << (E + F)) + 1, w))
    mm = extract(E + F - 1, 0, tm.sub(m2, const(1, w)))
    fl = ite(x.nan, const(3, 2), ite(z, const(0, 2), ite(inf, const(2, 2), const(1, 2))))
    return O.FP(E, F, fl, sg, extract(E + F - 1, F, mm), extract(F - 1, 0, mm))

def build(tier):
    fm = WIDE + [(4, 1), (2, 3), (2, 2), (3, 2), (15, 100)]
    groups = []
    for k, ch in enumerate(chunks(fm, 8)):
        g = Group('nx%d' % k, ''); code = INC
        for E, F in ch:
            n = 'next_%d_%d' % (E, F)
            code += 'VP %s(const u128*in,u128*out){ auto x=FP<%d,%d>(in); out[0]=OUT(nextup(x)); out[1]=OUT(nextdown(x)); out[2]=OUT(nextafter(x,INFINITY)); out[3]=OUT(nextafter(x,-INFINITY)); }\n' % (n, E, F)
            def spec(i, o, E=E, F=F):
                x = dec(i, 'x', E, F); d = lambda k: O.flopoco(E, F, o[k])
                return [('the number just above is the next representable one', NOT(O.same(d(0), step(x, E, F, True)))),
                        ('the number just below is the next representable one', NOT(O.same(d(1), step(x, E, F, False)))),
                        ('next towards +infinity', NOT(O.same(d(2), step(x, E, F, True)))),
                        ('next towards -infinity', NOT(O.same(d(3), step(x, E, F, False))))]
            def wit(i, E=E, F=F):
                x = dec(i, 'x', E, F)
                return [('exponent boundary', AND(x.normal, eq(x.frac, const(0, F)), tm.orr(x.exp))), ('negative exponent boundary', AND(x.normal, x.sign, NOT(tm.orr(NOT(x.frac))), NOT(NOT(tm.orr(NOT(x.exp))))))]
            g.job(n, fp_ins((E, F)), 4, spec, witness=wit, config='neighbours (%d,%d)' % (E, F))
            n = 'ulp_%d_%d' % (E, F)
            code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(FP<%d,%d>(in).within_1ulp(FP<%d,%d>(in+1))); }\n' % (n, E, F, E, F)
            def spec2(i, o, E=E, F=F):
                x = dec(i, 'x', E, F); y = dec(i, 'y', E, F)
                w = E + F + 4
                kx, ky = sext(key(x, E, F), w), sext(key(y, E, F), w)
                df = tm.sub(kx, ky)
                near = OR(*[eq(df, const(v, w)) for v in (0, 1, (1 << w) - 1)])
                want = OR(AND(x.nan, y.nan), AND(NOT(x.nan), NOT(y.nan), near))
                return [('within one unit exactly when equal or adjacent', tm.bxor(bit(o[0], 0), want))]
            g.job(n, fp_ins((E, F), (E, F)), 1, spec2, config='within one ulp (%d,%d)' % (E, F))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C12', build, bounds=lambda t: 'each listed format, all argument bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
