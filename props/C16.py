"""C16 fixed-width unsigned integers: slicing, concatenation, padding, resizing, selection, tables"""
from common import *
import random
INC = '#include "thls/tops/fp_flopoco.hpp"\nusing namespace thls;\n'

def build(tier):
    ws = list(range(1, 129))      # quick: fewer slices per width
    rnd = random.Random(11)
    groups = []
    sub = lambda x, hi, lo: extract(hi, lo, x)
    for k, ch in enumerate(chunks(ws, 4)):
        g = Group('st%d' % k, ''); code = INC
        for W in ch:
            body = ''; want = []
            def out(expr, t, label):
                nonlocal body
                body += ' out[%d]=OUT(%s);' % (len(want), expr); want.append((label, t))
            X = lambda i: i['x']
            pts = sorted(set([0, 1, W // 3, W // 2, W - 1, 30, 31, 32, 33, 62, 63, 64, 65] + [rnd.randrange(W) for _ in range(3)]))
            pts = [p for p in pts if 0 <= p < W]
            rngs = [(h, l) for h in pts for l in pts if h >= l]
            if tier == 'quick' and len(rngs) > 22: rngs = rnd.sample(rngs, 20) + [(W - 1, 0), (0, 0)]
            rngs = rngs[:40]
            for h, l in rngs: out('get_bits<%d,%d>(x)' % (h, l), lambda i, h=h, l=l: sub(i['x'], h, l), 'bits %d..%d' % (h, l))
            nout1 = len(want)
            code += 'VP sl_%d(const u128*in,u128*out){ auto x=IN<%d>(in);%s }\n' % (W, W, body)
            def spec(i, o, want=list(want)): return [(l, NOT(eq(o[j], zext(t(i), 128)))) for j, (l, t) in enumerate(want)]
            g.job('sl_%d' % W, [('x', W)], nout1, spec, config='slices of %d bits' % W)
            body = ''; want = []
            out('get_bit<%d>(x)' % (W // 2), lambda i, W=W: bit(i['x'], W // 2), 'single bit')
            out('take_lsb(x)', lambda i: bit(i['x'], 0), 'lowest bit'); out('take_msb(x)', lambda i, W=W: bit(i['x'], W - 1), 'highest bit')
            if W > 1:
                out('drop_lsb(x)', lambda i, W=W: sub(i['x'], W - 1, 1), 'without lowest bit'); out('drop_msb(x)', lambda i, W=W: sub(i['x'], W - 2, 0), 'without highest bit')
            for B in sorted(set([b for b in (1, W // 2, W - 1, W) if b >= 1])):
                out('take_lsbs<%d>(x)' % B, lambda i, B=B: sub(i['x'], B - 1, 0), 'low %d bits' % B)
                out('take_msbs<%d>(x)' % B, lambda i, B=B, W=W: sub(i['x'], W - 1, W - B), 'high %d bits' % B)
                if B < W:
                    out('drop_lsbs<%d>(x)' % B, lambda i, B=B, W=W: sub(i['x'], W - 1, B), 'without low %d bits' % B)
                    out('drop_msbs<%d>(x)' % B, lambda i, B=B, W=W: sub(i['x'], W - 1 - B, 0), 'without high %d bits' % B)
            for P in (0, 1, 5, 32, 128 - W):
                if P < 0 or P + W > 128: continue
                on = (1 << P) - 1
                out('zpad_hi<%d>(x)' % P, lambda i: i['x'], 'zeros above')
                out('opad_hi<%d>(x)' % P, lambda i, P=P, on=on: concat(const(on, P), i['x']) if P else i['x'], 'ones above')
                out('zpad_lo<%d>(x)' % P, lambda i, P=P: concat(i['x'], const(0, P)) if P else i['x'], 'zeros below')
                out('opad_lo<%d>(x)' % P, lambda i, P=P, on=on: concat(i['x'], const(on, P)) if P else i['x'], 'ones below')
                out('extu<%d>(x)' % (P + W), lambda i: i['x'], 'extension keeps the value')
                out('resize<%d>(x)' % (P + W), lambda i: i['x'], 'resize up keeps the value')
            for B in sorted(set([1, max(1, W // 2), max(1, W - 1)])): out('resize<%d>(x)' % B, lambda i, B=B: sub(i['x'], B - 1, 0), 'resize down keeps the low bits')
            out('checked_cast<%d>(x)' % W, lambda i: i['x'], 'checked cast'); out('concat(x)', lambda i: i['x'], 'concatenation of one')
            code += 'VP pd_%d(const u128*in,u128*out){ auto x=IN<%d>(in);%s }\n' % (W, W, body)
            def spec(i, o, want=list(want)): return [(l, NOT(eq(o[j], zext(t(i), 128)))) for j, (l, t) in enumerate(want)]
            g.job('pd_%d' % W, [('x', W)], len(want), spec, config='padding and resizing %d bits' % W)
            # selection
            body = ''; want = []
            for n in range(1, 7):
                cs = ['c%d' % j for j in range(n)]; vs = ['v%d' % j for j in range(n)]
                ok = n <= 6
                def sel(i, n=n):
                    r = i['v%d' % n]
                    for j in reversed(range(n)): r = ite(i['c%d' % j], i['v%d' % j], r)
                    return r
                args = ','.join('c%d,v%d' % (j, j) for j in range(n)) + ',v%d' % n
                out('select(%s)' % args, sel, 'first true condition of %d selects' % n)
                argb = ','.join('c%d.to_bool(),v%d' % (j, j) for j in range(n)) + ',v%d' % n
                out('select(%s)' % argb, sel, 'first true bool of %d selects' % n)
            code += 'VP se_%d(const u128*in,u128*out){ %s %s %s }\n' % (W, ' '.join('auto c%d=IN<1>(in+%d);' % (j, j) for j in range(6)), ' '.join('auto v%d=IN<%d>(in+%d);' % (j, W, 6 + j) for j in range(7)), body)
            def spec(i, o, want=list(want)): return [(l, NOT(eq(o[j], zext(t(i), 128)))) for j, (l, t) in enumerate(want)]
            g.job('se_%d' % W, [('c%d' % j, 1) for j in range(6)] + [('v%d' % j, W) for j in range(7)], len(want), spec, config='selection on %d bits' % W)
        g.code = code; groups.append(g)
    # concatenation of several operands
    cc = [(1, 1), (3, 5), (1, 31), (31, 1), (32, 32), (33, 31), (64, 64), (1, 127), (127, 1), (40, 24), (5, 0), (0, 5), (2, 3, 4), (1, 32, 31), (30, 30, 30), (2, 1, 8, 23), (2, 1, 11, 52), (32, 32, 32, 32), (1, 0, 3, 60), (7, 9, 1, 64)]
    if tier != 'quick':
        cc += [tuple(rnd.choice([0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 40]) for _ in range(rnd.choice([2, 3, 4]))) for _ in range(150)]
    cc = [c for k, c in enumerate(cc) if 0 < sum(c) <= 128 and c not in cc[:k]]
    for k, ch in enumerate(chunks(cc, 20)):
        g = Group('cc%d' % k, ''); code = INC
        for c in ch:
            n = 'cc_' + '_'.join(map(str, c))
            code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(concat(%s)); }\n' % (n, ','.join('IN<%d>(in+%d)' % (w, j) if w else 'fw_uint<0>()' for j, w in enumerate(c)))
            def spec(i, o, c=c):
                r = None
                for j, w in enumerate(c):
                    if w: r = i['a%d' % j] if r is None else concat(r, i['a%d' % j])
                return [('concatenation is most significant first', NOT(eq(o[0], zext(r, 128))))]
            g.job(n, [('a%d' % j, max(w, 1)) for j, w in enumerate(c)], 1, spec, config='concatenation of widths ' + ','.join(map(str, c)))
        g.code = code; groups.append(g)
    # arrays, tables, random values
    g = Group('tab', INC + '''
VP carr_3_8(const u128*in,u128*out){ fw_uint<8> a[4]={IN<8>(in),IN<8>(in+1),IN<8>(in+2),IN<8>(in+3)}; out[0]=OUT(concat_array<3,0>(a)); out[1]=OUT(concat_array<2,1>(a)); out[2]=OUT(concat_array<3,3>(a)); }
VP carr_3_21(const u128*in,u128*out){ fw_uint<21> a[4]={IN<21>(in),IN<21>(in+1),IN<21>(in+2),IN<21>(in+3)}; out[0]=OUT(concat_array<3,0>(a)); out[1]=OUT(concat_array<2,1>(a)); out[2]=OUT(concat_array<3,3>(a)); }
struct sq{ int operator()(int i) const { return (i*i+3*i+7)&0xffff; } };
VP lut_16_6(const u128*in,u128*out){ sq s; lut<16,6> t(s); out[0]=OUT(t(IN<6>(in))); }
struct rg{ const u128*p; uint32_t operator()(){ return (uint32_t)*p++; } };
''')
    for w in (8, 21):
        def spec(i, o, w=w):
            a = [i['a%d' % j] for j in range(4)]
            return [('array concatenated highest index first', NOT(eq(o[0], zext(concat(a[3], a[2], a[1], a[0]), 128)))), ('sub-range of an array', NOT(eq(o[1], zext(concat(a[2], a[1]), 128)))), ('single element', NOT(eq(o[2], zext(a[3], 128))))]
        g.job('carr_3_%d' % w, [('a%d' % j, w) for j in range(4)], 3, spec, config='array concatenation, elements of %d bits' % w)
    def slut(i, o):
        x = zext(i['x'], 16)
        return [('table lookup returns the initialised entry', NOT(eq(o[0], zext(tm.add(tm.add(tm.mul(x, x), tm.mul(const(3, 16), x)), const(7, 16)), 128))))]
    g.job('lut_16_6', [('x', 6)], 1, slut, config='lookup table 64 x 16')
    for W in (1, 5, 31, 32, 33, 60, 64, 65, 96, 100, 128):
        nw = (W + 31) // 32
        g.code += 'VP rnd_%d(const u128*in,u128*out){ rg r={in}; fw_uint<%d> x; randomise(x,r); out[0]=OUT(x); out[1]=r.p-in; }\n' % (W, W)
        def spec(i, o, W=W, nw=nw):
            p = None; left = W
            for j in range(nw):
                lw = min(32, left); left -= lw
                t = extract(31, 32 - lw, i['r%d' % j]) if lw < 32 else i['r%d' % j]
                p = t if p is None else concat(p, t)
            return [('random value is made of fresh generator bits only', NOT(eq(o[0], zext(p, 128)))), ('one generator call per 32 bits', NOT(eq(o[1], const(nw, 128))))]
        g.job('rnd_%d' % W, [('r%d' % j, 32) for j in range(nw)], 2, spec, config='random value of %d bits, generator output symbolic' % W)
    groups.append(g)
    return groups
if __name__ == '__main__':
    main('C16', build, bounds=lambda t: 'each listed width / combination, all operand values', assumptions=['clang lowers the instantiation to LLVM IR faithfully', 'native 128-bit integer backend (masked unsigned integers), the default one', 'random generator: 32-bit outputs, otherwise arbitrary'])
