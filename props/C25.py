"""C25 the internal-format policy: operators, comparisons, constants, float conversion"""
from common import *
from C09 import ieee
from C11 import key, slt
from C13 import cvals
INC = '#include "thls/tops/policy_flopoco.hpp"\nusing namespace thls;\ntemplate<class W> u128 B(const W&w){ return OUT(w.raw); }\n'
CMP = ['<', '<=', '==', '>=', '>', '!=']
LIM = ['min', 'max', 'lowest', 'infinity', 'quiet_NaN', 'denorm_min']

def cmp_spec(x, y, E, F, o, base):
    un = OR(x.nan, y.nan); kx, ky = key(x, E, F), key(y, E, F); lt, e = slt(kx, ky), eq(kx, ky)
    want = [AND(NOT(un), lt), AND(NOT(un), OR(lt, e)), AND(NOT(un), e), AND(NOT(un), NOT(lt)), AND(NOT(un), NOT(OR(lt, e))), OR(un, NOT(e))]
    return [('operator %s follows the order of the numbers' % CMP[k], NOT(eq(o[base + k], zext(want[k], 128)))) for k in range(6)]

def build(tier):
    q = tier == 'quick'
    fm = [(4, 3), (5, 5), (4, 6), (5, 10), (8, 7), (6, 7), (7, 13), (8, 23), (11, 29), (4, 5), (9, 3), (12, 4), (5, 9), (6, 12), (10, 17), (4, 24), (7, 30)] if q else [f for f in GRID if f[1] <= 16 or f[0] in (4, 5, 8, 11)] + [(8, 23), (11, 52)]
    groups = []
    for k, ch in enumerate(chunks(fm, 2 if q else 6)):
        g = Group('polf%d' % k, ''); code = INC
        for E, F in ch:
            d = dict(E=E, F=F)
            code += 'VP ar_%(E)d_%(F)d(const u128*in,u128*out){ typedef policy_flopoco<%(E)d,%(F)d>::value_t V; auto x=FP<%(E)d,%(F)d>(in), y=FP<%(E)d,%(F)d>(in+1); V a(x),b(y); out[0]=B(a+b); out[1]=B(a*b); V c(a); c+=b; out[2]=B(c); V e(a); out[4]=B(e*=b); out[3]=B(e); V f(a); out[5]=B(f+=b); out[6]=B(a); out[7]=B(b);' % d
            code += ''.join('out[%d]=(a%sb);' % (8 + j, c) for j, c in enumerate(CMP)) + ' }\n'
            def spec(i, o, E=E, F=F):
                x, y = dec(i, 'x', E, F), dec(i, 'y', E, F); D = lambda k: O.flopoco(E, F, o[k])
                s, p = O.add(x, y), O.mul(x, y, E, F)
                l = [('sum', NOT(O.same(D(0), s))), ('product', NOT(O.same(D(1), p))), ('in-place sum', NOT(O.same(D(2), s))), ('in-place product', NOT(O.same(D(3), p))),
                     ('in-place operators return the new value', NOT(AND(O.same(D(4), p), O.same(D(5), s)))), ('operands unchanged', NOT(AND(eq(o[6], zext(i['x'], 128)), eq(o[7], zext(i['y'], 128)))))]
                return l + cmp_spec(x, y, E, F, o, 8)
            g.job('ar_%d_%d' % (E, F), fp_ins((E, F), (E, F)), 14, spec, cost=F, witness=lambda i, E=E, F=F: [('normal sum', O.add(dec(i, 'x', E, F), dec(i, 'y', E, F)).normal)], config='policy operators (%d,%d)' % (E, F))
            code += 'VP dv_%(E)d_%(F)d(const u128*in,u128*out){ typedef policy_flopoco<%(E)d,%(F)d>::value_t V; auto x=FP<%(E)d,%(F)d>(in), y=FP<%(E)d,%(F)d>(in+1); out[0]=B(V(x)/V(y)); out[1]=OUT(div<%(E)d,%(F)d>(x,y)); }\n' % d
            def specd(i, o, E=E, F=F):
                x, y = dec(i, 'x', E, F), dec(i, 'y', E, F); r = O.flopoco(E, F, o[0])
                l = [('quotient is that of the division operation', NOT(eq(o[0], o[1])))]
                if F <= 7: l.append(('quotient is correctly rounded', NOT(O.same(r, O.div(x, y)))))
                return l
            g.job('dv_%d_%d' % (E, F), fp_ins((E, F), (E, F)), 2, specd, cost=F, config='policy division (%d,%d)' % (E, F))
            code += 'VP li_%(E)d_%(F)d(const u128*in,u128*out){ typedef policy_flopoco<%(E)d,%(F)d>::value_t V; typedef std::numeric_limits<V> L; out[0]=OUT((IN<1>(in)));' % d
            code += ''.join('out[%d]=B(V(L::%s()));' % (1 + j, c) for j, c in enumerate(LIM)) + 'int q[]={L::digits,L::radix,L::bias,L::min_exponent,L::max_exponent}; for(int j=0;j<5;j++) out[%d+j]=(unsigned)q[j]; }\n' % (1 + len(LIM))
            def specl(i, o, E=E, F=F):
                cv = cvals(E, F); bb = O.bias(E)
                l = [('constant %s' % c, NOT(O.same(O.flopoco(E, F, o[1 + j]), cv[c]))) for j, c in enumerate(LIM)]
                for j, v in enumerate([F + 1, 2, bb, -bb, bb + 1]): l.append(('format description constant %d' % j, NOT(eq(extract(31, 0, o[1 + len(LIM) + j]), const(v & 0xffffffff, 32)))))
                return l
            g.job('li_%d_%d' % (E, F), [('x', 1)], 6 + len(LIM), specl, config='policy constants (%d,%d)' % (E, F))
        g.code = code; groups.append(g)
    g = Group('polcv', '')
    g.code = INC + '''
VP from_float(const u128*in,u128*out){ uint32_t b=(uint32_t)in[0]; float f; __builtin_memcpy(&f,&b,4); typedef policy_flopoco<8,23>::value_t V; out[0]=B(to_impl<V,(convert_policy)(allow_overflow|allow_underflow|allow_precision_loss),float>::go(f)); V v(FP<8,23>(in+1)); float h=to_impl<float,(convert_policy)(allow_overflow|allow_underflow|allow_precision_loss),V>::go(v); uint32_t c; __builtin_memcpy(&c,&h,4); out[1]=c; }
'''
    def speccv(i, o):
        x = ieee(8, 23, i['f']); v = dec(i, 'x', 8, 23); r = O.flopoco(8, 23, o[0]); h = ieee(8, 23, o[1])
        lo = AND(v.normal, NOT(tm.orr(v.exp))); hi = AND(v.normal, NOT(tm.orr(NOT(v.exp))))
        want = O.sel(lo, O.special(8, 23, 0, v.sign), O.sel(hi, O.special(8, 23, 2, v.sign), v))
        return [('float converts to the number it denotes', NOT(O.same(r, x))), ('number converts to the float of that value', NOT(O.same(h, want)))]
    g.job('from_float', [('f', 32), ('x', 34)], 2, speccv, config='native float conversions')
    groups.append(g)
    return groups
if __name__ == '__main__':
    main('C25', build, bounds=lambda t: 'each listed format, all bit patterns; division against the reference for fractions up to 7 bits and against the division operation beyond', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
