"""C15 fixed-width unsigned integers: arithmetic, comparison, bitwise and shift operators"""
from common import *
INC = 'using namespace thls;\n'
WIDTHS_Q = list(range(1, 129))
WIDTHS_T = list(range(1, 129))

def build(tier):
    ws = WIDTHS_Q if tier == 'quick' else WIDTHS_T
    groups = []
    for k, ch in enumerate(chunks(ws, 5)):
        g = Group('fw%d' % k, ''); code = INC
        for W in ch:
            # binary operators
            code += '''VP bin_%(W)d(const u128*in,u128*out){ auto x=IN<%(W)d>(in), y=IN<%(W)d>(in+1); auto c=IN<1>(in+2);
 out[0]=OUT(x+y); out[1]=OUT(x-y); out[2]=OUT(x&y); out[3]=OUT(x|y); out[4]=OUT(x^y); out[5]=OUT(~x);
 out[6]=OUT(x<y); out[7]=OUT(x<=y); out[8]=OUT(x==y); out[9]=OUT(x>=y); out[10]=OUT(x>y); out[11]=OUT(x!=y);
 out[12]=OUT(add_with_cin(x,y,c)); out[13]=OUT(add_cin(x,c)); out[14]=OUT(add_sub(c,x,y)); out[15]=OUT(fw_uint<%(W)d>()); out[16]=OUT(zg<%(W)d>()); out[17]=OUT(og<%(W)d>()); fw_uint<%(W)d> z; z=x; out[18]=OUT(z); out[19]=OUT(x); out[20]=OUT(copybit<%(W)d>(c)); }\n''' % {'W': W}
            def spec(i, o, W=W):
                x, y, c = i['x'], i['y'], i['c']; cw = zext(c, W) if W > 1 else c
                lt, e = ult(x, y), eq(x, y)
                want = [('addition is modulo 2^W', tm.add(x, y)), ('subtraction is modulo 2^W', tm.sub(x, y)), ('and', tm.band(x, y)), ('or', tm.bor(x, y)), ('xor', tm.bxor(x, y)), ('complement', tm.bnot(x)),
                        ('less', lt), ('less or equal', OR(lt, e)), ('equal', e), ('greater or equal', NOT(lt)), ('greater', NOT(OR(lt, e))), ('different', NOT(e)),
                        ('addition with carry in', tm.add(tm.add(x, y), cw)), ('increment by carry', tm.add(x, cw)), ('add or subtract', ite(c, tm.sub(x, y), tm.add(x, y))),
                        ('default value is zero', const(0, W)), ('all zeros', const(0, W)), ('all ones', const((1 << W) - 1, W)), ('assignment copies', x), ('operands are unchanged', x), ('replicated bit', ite(c, const((1 << W) - 1, W), const(0, W)))]
                return [(l, NOT(eq(o[j], zext(t, 128)))) for j, (l, t) in enumerate(want)]
            g.job('bin_%d' % W, [('x', W), ('y', W), ('c', 1)], 21, spec, config='operators on %d bits' % W)
            # shifts
            code += 'VP sh_%(W)d(const u128*in,u128*out){ auto x=IN<%(W)d>(in); int d=(int)in[1]; out[0]=OUT(x<<d); out[1]=OUT(x>>d); }\n' % {'W': W}
            def spec3(i, o, W=W):
                w2 = max(W, 9); x = zext(i['x'], w2); d = zext(extract(7, 0, i['d']), w2)
                return [('left shift drops the high bits', NOT(eq(o[0], zext(extract(W - 1, 0, tm.shl(x, d)), 128)))), ('right shift fills with zeros', NOT(eq(o[1], zext(tm.lshr(x, d), 128))))]
            g.job('sh_%d' % W, [('x', W), ('d', 32)], 2, spec3, pre=lambda i, W=W: ult(i['d'], const(W, 32)), config='shifts on %d bits' % W)
            # plain integers as second operand, in the documented range
            code += '''VP int_%(W)d(const u128*in,u128*out){ auto x=IN<%(W)d>(in); int b=(int)in[1]; fw_uint<%(W)d> q(b); out[0]=OUT(q); out[1]=OUT(x+b); out[2]=OUT(x-b); out[3]=OUT(x<b); out[4]=OUT(x<=b); out[5]=OUT(x==b); out[6]=OUT(x>=b); out[7]=OUT(x>b); out[8]=OUT(x!=b); out[9]=OUT(x&b); out[10]=OUT(x|b); out[11]=OUT(x^b); out[12]=OUT(cg<%(W)d>(b)); out[13]=(unsigned)q.to_int(); out[14]=q.to_uint64(); out[15]=OUT(fw_uint<%(W)d>::from_uint64((uint64_t)b)); out[16]=OUT(fw_uint<%(W)d>::from_bits(x.bits)); }\n''' % {'W': W}
            def spec2(i, o, W=W):
                x = i['x']; b = zext(i['b'], W) if W >= 32 else extract(W - 1, 0, i['b'])
                lt, e = ult(x, b), eq(x, b)
                want = [('value built from an int', b), ('int added', tm.add(x, b)), ('int subtracted', tm.sub(x, b)), ('less than int', lt), ('at most int', OR(lt, e)), ('equals int', e), ('at least int', NOT(lt)), ('greater than int', NOT(OR(lt, e))), ('differs from int', NOT(e)),
                        ('and int', tm.band(x, b)), ('or int', tm.bor(x, b)), ('xor int', tm.bxor(x, b)), ('constant', b), ('read back as int', b), ('read back as 64 bits', b), ('built from 64 bits', b), ('built from raw bits', x)]
                return [(l, NOT(eq(o[j], zext(t, 128)))) for j, (l, t) in enumerate(want)]
            g.job('int_%d' % W, [('x', W), ('b', 32)], 17, spec2, pre=lambda i, W=W: ult(i['b'], const(1 << min(W, 31), 32)), config='int operands on %d bits' % W)
            # negative ints in add/sub are modular as well
            code += 'VP neg_%(W)d(const u128*in,u128*out){ auto x=IN<%(W)d>(in); int b=(int)in[1]; out[0]=OUT(x+b); out[1]=OUT(x-b); }\n' % {'W': W}
            def spec4(i, o, W=W):
                b = sext(i['b'], W) if W >= 32 else extract(W - 1, 0, i['b'])
                return [('any int added modulo 2^W', NOT(eq(o[0], zext(tm.add(i['x'], b), 128)))), ('any int subtracted modulo 2^W', NOT(eq(o[1], zext(tm.sub(i['x'], b), 128))))]
            g.job('neg_%d' % W, [('x', W), ('b', 32)], 2, spec4, config='signed int operands on %d bits' % W)
            if W <= 64:
                code += 'VP u64_%(W)d(const u128*in,u128*out){ out[0]=IN<%(W)d>(in).to_uint64(); out[1]=OUT(fw_uint<%(W)d>::from_uint64((uint64_t)in[0])); }\n' % {'W': W}
                g.job('u64_%d' % W, [('x', W)], 2, lambda i, o: [('to 64 bits', NOT(eq(o[0], zext(i['x'], 128)))), ('from 64 bits', NOT(eq(o[1], zext(i['x'], 128))))], config='64-bit conversions on %d bits' % W)
            if W <= 32:
                code += 'VP u32_%(W)d(const u128*in,u128*out){ out[0]=IN<%(W)d>(in).to_uint32(); }\n' % {'W': W}
                g.job('u32_%d' % W, [('x', W)], 1, lambda i, o: [('to 32 bits', NOT(eq(o[0], zext(i['x'], 128))))], config='32-bit conversion on %d bits' % W)
        g.code = code; groups.append(g)
    mp = [(1, 1), (3, 5), (8, 8), (16, 16), (17, 15), (20, 12), (24, 9), (32, 32), (33, 31), (40, 24), (53, 53), (64, 64), (100, 28), (10, 90), (63, 65), (1, 127)] if tier == 'quick' else \
         [(a, b) for a in (1, 2, 5, 8, 15, 16, 17, 24, 31, 32, 33, 47, 48, 53, 63, 64, 65, 96, 100, 127) for b in (1, 2, 7, 8, 15, 16, 17, 28, 31, 32, 33, 53, 63, 64, 65, 95, 96, 127) if a + b <= 128]
    for k, ch in enumerate(chunks(mp, 8)):
        g = Group('fwm%d' % k, ''); code = INC
        for a, b in ch:
            n = 'mul_%d_%d' % (a, b)
            code += 'VP %s(const u128*in,u128*out){ auto x=IN<%d>(in); auto y=IN<%d>(in+1); out[0]=OUT(x*y); out[1]=OUT(full_mul(x,y)); %s }\n' % (n, a, b, 'out[2]=OUT(square(x));' if 2 * a <= 128 else '')
            def spec(i, o, a=a, b=b):
                p = zext(tm.mul(zext(i['x'], a + b), zext(i['y'], a + b)), 128)
                l = [('product is exact', NOT(eq(o[0], p))), ('full product is exact', NOT(eq(o[1], p)))]
                if 2 * a <= 128: l.append(('square is exact', NOT(eq(o[2], zext(tm.mul(zext(i['x'], 2 * a), zext(i['x'], 2 * a)), 128)))))
                return l
            g.job(n, [('x', a), ('y', b)], 3 if 2 * a <= 128 else 2, spec, config='product of %d and %d bits' % (a, b))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C15', build, bounds=lambda t: 'each listed width (and width pair for products), all operand values; int operands in their documented range', assumptions=['clang lowers the instantiation to LLVM IR faithfully', 'native 128-bit integer backend (masked unsigned integers), the default one'])
