"""C31 IEEE container: classification, identity, constants"""
from common import *
from C09 import ieee
INC = '#include "thls/tops/fp_ieee.hpp"\nusing namespace thls;\ntemplate<int E,int F> fp_ieee<E,F> IE(const u128*p){ return fp_ieee<E,F>(IN<1+E+F>(p)); }\n'
from C13 import PRED
CONST = ['min', 'neg_min', 'max', 'neg_max', 'lowest', 'infinity', 'neg_infinity', 'quiet_NaN', 'signalling_NaN', 'pos_zero', 'neg_zero', 'zero', 'pos_one', 'neg_one', 'one']

def cvals(E, F):
    z = lambda s, e=0, f=0: ieee(E, F, const((s << (E + F)) | (e << F) | f, 1 + E + F))
    M = (1 << E) - 1; G = (1 << F) - 1; b = O.bias(E)
    return dict(min=z(0, 1), neg_min=z(1, 1), max=z(0, M - 1, G), neg_max=z(1, M - 1, G), lowest=z(1, M - 1, G), infinity=z(0, M), neg_infinity=z(1, M), quiet_NaN=z(0, M, G), signalling_NaN=z(0, M, G),
                pos_zero=z(0), neg_zero=z(1), zero=z(0), pos_one=z(0, b), neg_one=z(1, b), one=z(0, b))

def build(tier):
    fm = WIDE + [(3, 2), (3, 1), (15, 100)]
    groups = []
    for k, ch in enumerate(chunks(fm, 8)):
        g = Group('iee%d' % k, ''); code = INC
        for E, F in ch:
            d = dict(E=E, F=F)
            code += 'VP iee_%(E)d_%(F)d(const u128*in,u128*out){ auto x=IE<%(E)d,%(F)d>(in), y=IE<%(E)d,%(F)d>(in+1), z=IE<%(E)d,%(F)d>(in+2); typedef std::numeric_limits<fp_ieee<%(E)d,%(F)d>> L; u128 r=0;' % d
            code += ''.join('r|=OUT(x.%s())<<%d;' % (p, j) for j, p in enumerate(PRED))
            code += 'out[0]=r; out[1]=OUT(x.get_flags()); out[2]=OUT(x.get_sign()); out[3]=OUT(x.get_exp_bits()); out[4]=OUT(x.get_frac_bits()); out[5]=OUT(x.equals(y)); out[6]=OUT(y.equals(x)); out[7]=OUT(y.equals(z)); out[8]=OUT(x.equals(z)); out[9]=OUT(x.equals(x)); out[10]=OUT(fp_ieee<%(E)d,%(F)d>().bits);' % d
            code += ''.join('out[%d]=OUT(L::%s().bits);' % (11 + j, c) for j, c in enumerate(CONST))
            n0 = 11 + len(CONST)
            code += 'int q[]={L::digits,L::radix,L::bias,L::min_exponent,L::max_exponent}; for(int j=0;j<5;j++) out[%d+j]=(unsigned)q[j]; }\n' % n0
            def spec(i, o, E=E, F=F, n0=n0):
                x, y = ieee(E, F, i['x']), ieee(E, F, i['y']); p = NOT(x.sign); b = lambda k: bit(o[k], 0)
                want = [x.zero, x.normal, x.inf, x.nan, p, x.sign, AND(p, x.normal), AND(x.sign, x.normal), AND(p, x.zero), AND(x.sign, x.zero), AND(p, x.inf), AND(x.sign, x.inf)]
                l = [('predicate %s' % PRED[j], tm.bxor(bit(o[0], j), want[j])) for j in range(len(PRED))]
                for j, t in enumerate([x.flags, x.sign, x.exp, x.frac]): l.append(('field %d' % j, NOT(eq(o[1 + j], zext(t, 128)))))
                l += [('identity: same value, zeros of either sign being one value', tm.bxor(b(5), O.same(x, y, zero_sign=False))), ('symmetric', tm.bxor(b(5), b(6))),
                      ('transitive', AND(b(5), b(7), NOT(b(8)))), ('reflexive', NOT(b(9))), ('a fresh number is positive zero', tm.orr(o[10]))]
                cv = cvals(E, F)
                l += [('constant %s' % c, NOT(O.same(ieee(E, F, o[11 + j]), cv[c]))) for j, c in enumerate(CONST)]
                bb = O.bias(E)
                for j, v in enumerate([F + 1, 2, bb, 1 - bb, bb]): l.append(('format description constant %d' % j, NOT(eq(extract(31, 0, o[n0 + j]), const(v & 0xffffffff, 32)))))
                return l
            g.job('iee_%d_%d' % (E, F), [('x', E + F + 1), ('y', E + F + 1), ('z', E + F + 1)], n0 + 5, spec, config='IEEE container (%d,%d)' % (E, F))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C31', build, bounds=lambda t: 'each listed format, all triples of bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
