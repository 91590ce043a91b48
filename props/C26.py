"""C26 the IEEE-on-flopoco policy: IEEE results with subnormals flushed"""
from common import *
from C09 import ieee
from C25 import CMP, cmp_spec
from C31 import cvals
INC = '#include "thls/tops/policy_ieee_on_flopoco.hpp"\nusing namespace thls;\ntemplate<int E,int F> fp_ieee<E,F> IE(const u128*p){ return fp_ieee<E,F>(IN<1+E+F>(p)); }\ntemplate<class W> u128 B(const W&w){ return OUT(w.raw.bits); }\n'
LIM = ['min', 'max', 'lowest', 'infinity', 'quiet_NaN']

def flush(x, E, F):
    lo = AND(x.normal, NOT(tm.orr(x.exp))); hi = AND(x.normal, NOT(tm.orr(NOT(x.exp))))
    return O.sel(lo, O.special(E, F, 0, x.sign), O.sel(hi, O.special(E, F, 2, x.sign), x))

def canon(x, E, F, o):
    """the pattern is a true zero or infinity, not a subnormal"""
    s = extract(F - 1, 0, o)
    return AND(NOT(tm.orr(extract(E + F - 1, F, o))), tm.orr(s))

def build(tier):
    q = tier == 'quick'
    fm = [(4, 3), (5, 5), (4, 6), (5, 10), (8, 7), (6, 7), (7, 13), (8, 23), (11, 29), (4, 5), (9, 3), (12, 4), (5, 9), (6, 12), (10, 17), (4, 24), (7, 30)] if q else [f for f in GRID if f[1] <= 16 or f[0] in (4, 5, 8, 11)] + [(8, 23), (11, 52)]
    groups = []
    for k, ch in enumerate(chunks(fm, 2 if q else 6)):
        g = Group('poli%d' % k, ''); code = INC
        for E, F in ch:
            d = dict(E=E, F=F); w = 1 + E + F
            code += 'VP ar_%(E)d_%(F)d(const u128*in,u128*out){ typedef policy_ieee_on_flopoco<%(E)d,%(F)d>::value_t V; V a(IE<%(E)d,%(F)d>(in)),b(IE<%(E)d,%(F)d>(in+1)); out[0]=B(a+b); out[1]=B(a*b); out[2]=B(a); out[3]=B(b);' % d
            code += ''.join('out[%d]=(a%sb);' % (4 + j, c) for j, c in enumerate(CMP)) + ' }\n'
            def spec(i, o, E=E, F=F):
                x, y = ieee(E, F, i['x']), ieee(E, F, i['y'])
                s, p = flush(O.add(x, y), E, F), flush(O.mul(x, y, E, F), E, F)
                l = [('sum', NOT(O.same(ieee(E, F, o[0]), s))), ('product', NOT(O.same(ieee(E, F, o[1]), p))), ('results are never subnormal patterns', OR(canon(s, E, F, o[0]), canon(p, E, F, o[1]))),
                     ('operands unchanged', NOT(AND(eq(o[2], zext(i['x'], 128)), eq(o[3], zext(i['y'], 128)))))]
                return l + cmp_spec(x, y, E, F, o, 4)
            g.job('ar_%d_%d' % (E, F), [('x', w), ('y', w)], 10, spec, cost=F, witness=lambda i, E=E, F=F: [('normal sum', O.add(ieee(E, F, i['x']), ieee(E, F, i['y'])).normal)], config='IEEE policy operators (%d,%d)' % (E, F))
            code += 'VP dv_%(E)d_%(F)d(const u128*in,u128*out){ typedef policy_ieee_on_flopoco<%(E)d,%(F)d>::value_t V; auto x=IE<%(E)d,%(F)d>(in), y=IE<%(E)d,%(F)d>(in+1); out[0]=B(V(x)/V(y)); fp_flopoco<%(E)d,%(F)d> p,q; convert(p,x); convert(q,y); fp_ieee<%(E)d,%(F)d> r; convert(r,div<%(E)d,%(F)d>(p,q)); out[1]=OUT(r.bits); }\n' % d
            def specd(i, o, E=E, F=F):
                x, y = ieee(E, F, i['x']), ieee(E, F, i['y'])
                l = [('quotient is that of the division operation', NOT(eq(o[0], o[1]))), ('results are never subnormal patterns', canon(None, E, F, o[0]))]
                if F <= 7: l.append(('quotient is correctly rounded', NOT(O.same(ieee(E, F, o[0]), flush(O.div(x, y), E, F)))))
                return l
            g.job('dv_%d_%d' % (E, F), [('x', w), ('y', w)], 2, specd, cost=F, config='IEEE policy division (%d,%d)' % (E, F))
            code += 'VP li_%(E)d_%(F)d(const u128*in,u128*out){ typedef policy_ieee_on_flopoco<%(E)d,%(F)d>::value_t V; typedef std::numeric_limits<V> L; out[0]=OUT((IN<1>(in)));' % d
            code += ''.join('out[%d]=OUT(L::%s().bits);' % (1 + j, c) for j, c in enumerate(LIM)) + ' int q[]={L::digits,L::radix,L::bias,L::min_exponent,L::max_exponent}; for(int j=0;j<5;j++) out[%d+j]=(unsigned)q[j]; }\n' % (1 + len(LIM))
            def specl(i, o, E=E, F=F):
                cv = cvals(E, F)
                bb = O.bias(E); n0 = 1 + len(LIM)
                l = [('constant %s' % c, NOT(O.same(ieee(E, F, o[1 + j]), cv[c]))) for j, c in enumerate(LIM)]
                for j, (nm, v) in enumerate([('digits', F + 1), ('radix', 2), ('bias', bb), ('least exponent', 1 - bb), ('greatest exponent', bb)]): l.append(('format description: %s is that of the IEEE format' % nm, NOT(eq(extract(31, 0, o[n0 + j]), const(v & 0xffffffff, 32)))))
                return l
            g.job('li_%d_%d' % (E, F), [('x', 1)], 6 + len(LIM), specl, config='IEEE policy constants (%d,%d)' % (E, F))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C26', build, bounds=lambda t: 'each listed format, all bit patterns; division against the reference for fractions up to 7 bits and against the division operation beyond', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
