"""C30 algebraic laws of the operators (self-composition: both sides are the real code)"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\nusing namespace thls;\n'
CODE = '''
VP lw_%(E)d_%(F)d(const u128*in,u128*out){ typedef fp_flopoco<%(E)d,%(F)d> T; T x=FP<%(E)d,%(F)d>(in), y=FP<%(E)d,%(F)d>(in+1), n=neg<%(E)d,%(F)d>(x), m=neg<%(E)d,%(F)d>(y);
 out[0]=OUT(add<%(E)d,%(F)d>(x,y)); out[1]=OUT(add<%(E)d,%(F)d>(y,x)); out[2]=OUT(mul<%(E)d,%(F)d>(x,y)); out[3]=OUT(mul<%(E)d,%(F)d>(y,x));
 out[4]=OUT(add<%(E)d,%(F)d>(n,m)); out[5]=OUT(mul<%(E)d,%(F)d>(n,m)); out[6]=OUT(mul<%(E)d,%(F)d>(n,y)); out[7]=OUT(mul<%(E)d,%(F)d>(x,m)); }
VP un_%(E)d_%(F)d(const u128*in,u128*out){ typedef fp_flopoco<%(E)d,%(F)d> T; T x=FP<%(E)d,%(F)d>(in), n=neg<%(E)d,%(F)d>(x), one=FP<%(E)d,%(F)d>(in+1), mone=FP<%(E)d,%(F)d>(in+2), pz=FP<%(E)d,%(F)d>(in+3), nz=FP<%(E)d,%(F)d>(in+4), two=FP<%(E)d,%(F)d>(in+5), half=FP<%(E)d,%(F)d>(in+6);
 out[0]=OUT(add<%(E)d,%(F)d>(x,pz)); out[1]=OUT(add<%(E)d,%(F)d>(nz,x)); out[2]=OUT(mul<%(E)d,%(F)d>(x,one)); out[3]=OUT(mul<%(E)d,%(F)d>(mone,x)); out[4]=OUT(add<%(E)d,%(F)d>(x,n));
 out[5]=OUT(n); out[6]=OUT(add<%(E)d,%(F)d>(x,x)); out[7]=OUT(mul<%(E)d,%(F)d>(x,two)); out[8]=OUT(mul<%(E)d,%(F)d>(pz,x)); }
VP dv_%(E)d_%(F)d(const u128*in,u128*out){ typedef fp_flopoco<%(E)d,%(F)d> T; T x=FP<%(E)d,%(F)d>(in), y=FP<%(E)d,%(F)d>(in+1), n=neg<%(E)d,%(F)d>(x), m=neg<%(E)d,%(F)d>(y);
 out[0]=OUT(div<%(E)d,%(F)d>(x,y)); out[1]=OUT(div<%(E)d,%(F)d>(n,y)); out[2]=OUT(div<%(E)d,%(F)d>(x,m)); out[3]=OUT(div<%(E)d,%(F)d>(n,m)); }
VP dp_%(E)d_%(F)d(const u128*in,u128*out){ typedef fp_flopoco<%(E)d,%(F)d> T; T x=FP<%(E)d,%(F)d>(in); fw_uint<%(E)d> k=IN<%(E)d>(in+1); fw_uint<1> s=IN<1>(in+2);
 T y(concat(cg<2>(1),s,k,zg<%(F)d>())), z(concat(cg<2>(1),s,fw_uint<%(E)d>(2*T::bias)-k,zg<%(F)d>()));
 out[0]=OUT(div<%(E)d,%(F)d>(x,y)); out[1]=OUT(mul<%(E)d,%(F)d>(x,z)); }
'''
DX = '''VP dx_%(E)d_%(F)d(const u128*in,u128*out){ typedef fp_flopoco<%(E)d,%(F)d> T; T x=FP<%(E)d,%(F)d>(in); out[0]=OUT(div<%(E)d,%(F)d>(x,x)); }
'''

def build(tier):
    q = tier == 'quick'
    fm = [(4, 3), (5, 5), (4, 6), (5, 10), (8, 7), (6, 7), (7, 13), (4, 14), (6, 16), (8, 23), (12, 32), (10, 29), (11, 52), (4, 8), (9, 3), (5, 16), (6, 22), (11, 24), (5, 26), (4, 30), (9, 31)] if q else GRID + [(8, 47), (11, 52)]
    groups = []
    for k, ch in enumerate(chunks(fm, 3 if q else 6)):
        g = Group('law%d' % k, ''); code = INC
        for E, F in ch:
            d = dict(E=E, F=F); code += CODE % d; W = E + F + 3; b = O.bias(E)
            D = lambda o, E=E, F=F: O.flopoco(E, F, o)
            def flip(v, E=E, F=F): return O.FP(E, F, v.flags, NOT(v.sign), v.exp, v.frac)
            def spec(i, o, D=D, flip=flip):
                s, p = D(o[0]), D(o[2])
                return [('addition is commutative', NOT(O.same(s, D(o[1])))), ('multiplication is commutative', NOT(O.same(p, D(o[3])))),
                        ('negating both operands negates the sum', NOT(O.same(D(o[4]), flip(s))), NOT(s.zero)),
                        ('a zero sum stays zero when both operands are negated', NOT(D(o[4]).zero), s.zero),
                        ('negating both operands leaves the product', NOT(O.same(D(o[5]), p))), ('negating one operand negates the product', NOT(AND(O.same(D(o[6]), flip(p)), O.same(D(o[7]), flip(p)))))]
            g.job('lw_%d_%d' % (E, F), fp_ins((E, F), (E, F)), 8, spec, cost=F, config='laws of two operands (%d,%d)' % (E, F))
            one = (1 << (E + F + 1)) | (b << F); mone = one | (1 << (E + F)); two = (1 << (E + F + 1)) | ((b + 1) << F)
            fx = {'one': one, 'mone': mone, 'pz': 0, 'nz': 1 << (E + F), 'two': two, 'half': (1 << (E + F + 1)) | ((b - 1) << F)}
            def specu(i, o, D=D, flip=flip, E=E, F=F):
                x = dec(i, 'x', E, F)
                pzero = O.special(E, F, 0, const(0, 1))
                return [('x + 0 = x', NOT(OR(O.same(D(o[0]), x), AND(x.zero, D(o[0]).zero)))), ('-0 + x = x', NOT(O.same(D(o[1]), x))), ('x * 1 = x', NOT(O.same(D(o[2]), x))), ('-1 * x = -x', NOT(AND(O.same(D(o[3]), flip(x)), O.same(D(o[5]), flip(x))))),
                        ('x + (-x) = +0 for finite x', NOT(O.same(D(o[4]), pzero)), OR(x.normal, x.zero)), ('x + x = 2 x', NOT(O.same(D(o[6]), D(o[7])))), ('0 * x = 0 for finite x', NOT(AND(D(o[8]).zero, eq(D(o[8]).sign, x.sign))), OR(x.normal, x.zero))]
            g.job('un_%d_%d' % (E, F), [('x', W), ('one', W), ('mone', W), ('pz', W), ('nz', W), ('two', W), ('half', W)], 9, specu, fixed=fx, cost=F, config='neutral elements, cancellation, doubling (%d,%d)' % (E, F))
            def specd(i, o, D=D, flip=flip, E=E, F=F, b=b):
                r = D(o[0]); x, y = dec(i, 'x', E, F), dec(i, 'y', E, F); sg = tm.bxor(x.sign, y.sign); w = E + 3
                nn = AND(x.normal, y.normal)
                # exponent of the quotient: at most one below the difference of the exponents, depending on the fractions
                e = tm.sub(tm.sub(tm.add(zext(x.exp, w), const(b, w)), zext(y.exp, w)), zext(ult(x.frac, y.frac), w))
                return [('negating the dividend negates the quotient', NOT(O.same(D(o[1]), flip(r)))), ('negating the divisor negates the quotient', NOT(O.same(D(o[2]), flip(r)))), ('negating both leaves the quotient', NOT(O.same(D(o[3]), r))),
                        ('quotients of special values', NOT(O.same(r, O.sel(OR(x.nan, y.nan, AND(x.zero, y.zero), AND(x.inf, y.inf)), O.special(E, F, 3, const(0, 1)), O.sel(OR(x.inf, y.zero), O.special(E, F, 2, sg), O.special(E, F, 0, sg))))), NOT(nn)),
                        ('sign and class of a quotient of normals', NOT(AND(eq(r.sign, sg), eq(r.normal, AND(NOT(bit(e, w - 1)), NOT(tm.sge(e, const(1 << E, w))))), eq(r.zero, bit(e, w - 1)), OR(NOT(r.normal), eq(r.exp, extract(E - 1, 0, e))))), nn)]
            g.job('dv_%d_%d' % (E, F), fp_ins((E, F), (E, F)), 4, specd if F <= 60 else (lambda i, o, s=specd: s(i, o)[:4]), cost=F + 4, config='sign and special-value laws of division (%d,%d)' % (E, F))
            def specp(i, o, D=D): return [('x / 2^k = x * 2^-k', NOT(O.same(D(o[0]), D(o[1]))))]
            g.job('dp_%d_%d' % (E, F), [('x', W), ('k', E), ('s', 1)], 2, specp, pre=lambda i, b=b, E=E: tm.uge(const(2 * b, E), i['k']), cost=F + 4, config='division by powers of two (%d,%d)' % (E, F))
            if F <= 60:
                code += DX % d
                def specx(i, o, D=D, E=E, F=F, one=one): return [('x / x = 1 for normal x', NOT(O.same(D(o[0]), O.flopoco(E, F, const(one, E + F + 3)))), dec(i, 'x', E, F).normal)]
                g.job('dx_%d_%d' % (E, F), fp_ins((E, F)), 1, specx, cost=F + 4, config='x / x = 1 (%d,%d)' % (E, F))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C30', build, bounds=lambda t: 'each listed format, all operand bit patterns (powers of two with every representable exponent)', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
