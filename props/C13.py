"""C13 classification predicates, field accessors and format constants"""
from common import *
from C11 import key, slt
INC = '#include "thls/tops/fp_flopoco.hpp"\n#include "thls/tops/fp_flopoco_ordering.hpp"\nusing namespace thls;\n'
PRED = ['is_zero', 'is_normal', 'is_inf', 'is_nan', 'is_positive', 'is_negative', 'is_pos_normal', 'is_neg_normal', 'is_pos_zero', 'is_neg_zero', 'is_pos_inf', 'is_neg_inf']
CONST = ['min', 'neg_min', 'max', 'neg_max', 'lowest', 'infinity', 'neg_infinity', 'quiet_NaN', 'pos_zero', 'neg_zero', 'zero', 'pos_one', 'neg_one', 'one', 'denorm_min']

def cvals(E, F):
    z = lambda fl, s, e=0, f=0: O.FP(E, F, const(fl, 2), const(s, 1), const(e, E), const(f, F))
    M = (1 << E) - 1; G = (1 << F) - 1; b = O.bias(E)
    return dict(min=z(1, 0), neg_min=z(1, 1), max=z(1, 0, M, G), neg_max=z(1, 1, M, G), lowest=z(1, 1, M, G), infinity=z(2, 0), neg_infinity=z(2, 1), quiet_NaN=z(3, 0),
                pos_zero=z(0, 0), neg_zero=z(0, 1), zero=z(0, 0), pos_one=z(1, 0, b), neg_one=z(1, 1, b), one=z(1, 0, b), denorm_min=z(1, 0))

def build(tier):
    fm = WIDE + [(4, 1), (2, 2), (2, 3), (3, 2), (15, 100)]
    groups = []
    for k, ch in enumerate(chunks(fm, 8)):
        g = Group('cls%d' % k, ''); code = INC
        for E, F in ch:
            d = dict(E=E, F=F)
            code += 'VP cls_%(E)d_%(F)d(const u128*in,u128*out){ auto x=FP<%(E)d,%(F)d>(in); u128 r=0;' % d
            code += ''.join('r|=OUT(x.%s())<<%d;' % (p, j) for j, p in enumerate(PRED))
            code += 'out[0]=r; out[1]=OUT(x.get_flags()); out[2]=OUT(x.get_sign()); out[3]=OUT(x.get_exp_bits()); out[4]=OUT(x.get_frac_bits()); out[5]=OUT(x.get_exp_frac_bits()); out[6]=OUT(x.get_flags_exp_frac_bits()); out[7]=OUT(x.get_equality_class()); fp_flopoco<%(E)d,%(F)d> z(x.get_flags(),x.get_sign(),x.get_exp_bits(),x.get_frac_bits()); out[8]=OUT(z); out[9]=OUT(fp_flopoco<%(E)d,%(F)d>()); }\n' % d
            def spec(i, o, E=E, F=F):
                x = dec(i, 'x', E, F); p = NOT(x.sign)
                want = [x.zero, x.normal, x.inf, x.nan, p, x.sign, AND(p, x.normal), AND(x.sign, x.normal), AND(p, x.zero), AND(x.sign, x.zero), AND(p, x.inf), AND(x.sign, x.inf)]
                l = [('predicate %s' % PRED[j], tm.bxor(bit(o[0], j), want[j])) for j in range(len(PRED))]
                W = lambda t: zext(t, 128)
                for j, (n, t) in enumerate([('flags', x.flags), ('sign', x.sign), ('exponent', x.exp), ('fraction', x.frac), ('exponent and fraction', x.mag), ('flags, exponent and fraction', concat(x.flags, x.mag))]):
                    l.append(('field %s' % n, NOT(eq(o[1 + j], W(t)))))
                cl = ite(x.nan, const(0, 3), ite(x.zero, const(3, 3), ite(x.inf, ite(x.sign, const(1, 3), const(5, 3)), ite(x.sign, const(2, 3), const(4, 3)))))
                l.append(('class code is ordered nan, -inf, negative, zero, positive, +inf', NOT(eq(o[7], W(cl)))))
                l.append(('number reassembled from its fields is itself', NOT(eq(o[8], W(i['x'])))))
                l.append(('a fresh number is positive zero', tm.orr(o[9])))
                return l
            g.job('cls_%d_%d' % (E, F), fp_ins((E, F)), 10, spec, config='classification (%d,%d)' % (E, F))
            code += 'VP cst_%(E)d_%(F)d(const u128*in,u128*out){ auto x=FP<%(E)d,%(F)d>(in); typedef std::numeric_limits<fp_flopoco<%(E)d,%(F)d>> L; typedef fp_flopoco<%(E)d,%(F)d> T;' % d
            code += ''.join('out[%d]=OUT(L::%s());' % (j, c) for j, c in enumerate(CONST))
            n0 = len(CONST)
            code += 'out[%d]=OUT(less_than_equal(x,L::max())); out[%d]=OUT(less_than_equal(L::lowest(),x)); out[%d]=OUT(less_than_equal(L::min(),x)); out[%d]=OUT(less_than_equal(x,L::neg_min()));' % tuple(range(n0, n0 + 4))
            code += 'int q[]={L::digits,L::radix,L::bias,L::min_exponent,L::max_exponent,T::bias,T::min_exponent,T::max_exponent,T::exp_bits,T::frac_bits}; for(int j=0;j<10;j++) out[%d+j]=(unsigned)q[j]; }\n' % (n0 + 4)
            def spec2(i, o, E=E, F=F, n0=n0):
                x = dec(i, 'x', E, F); cv = cvals(E, F)
                l = [('constant %s' % c, NOT(O.same(O.flopoco(E, F, o[j]), cv[c]))) for j, c in enumerate(CONST)]
                fin = OR(x.zero, x.normal)
                l += [('finite numbers are at most the largest', AND(fin, NOT(bit(o[n0], 0)))), ('finite numbers are at least the lowest', AND(fin, NOT(bit(o[n0 + 1], 0)))),
                      ('positive numbers are at least the smallest', AND(x.normal, NOT(x.sign), NOT(bit(o[n0 + 2], 0)))), ('negative numbers are at most minus the smallest', AND(x.normal, x.sign, NOT(bit(o[n0 + 3], 0))))]
                b = O.bias(E)
                for j, v in enumerate([F + 1, 2, b, -b, b + 1, b, -b, b + 1, E, F]):
                    l.append(('format description constant %d' % j, NOT(eq(extract(31, 0, o[n0 + 4 + j]), const(v & 0xffffffff, 32)))))
                return l
            g.job('cst_%d_%d' % (E, F), fp_ins((E, F)), n0 + 14, spec2, config='constants (%d,%d)' % (E, F))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C13', build, bounds=lambda t: 'each listed format, all argument bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
