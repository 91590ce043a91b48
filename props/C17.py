"""C17 leading-zero normalisers and the fixed-point helpers of the reciprocal"""
from common import *

def lz(x):
    """(leading zeros, x shifted left by them) for x != 0"""
    W = x.w; cw = W.bit_length(); n = const(0, cw); sh = x
    for j in range(W):      # the highest set bit wins
        c = bit(x, j); n = ite(c, const(W - 1 - j, cw), n); sh = ite(c, concat(extract(j, 0, x), const(0, W - 1 - j)) if j < W - 1 else x, sh)
    return n, sh

def lz_spec(WD, WC):
    def spec(i, o):
        x = i['x']; n, sh = lz(x)
        cw = max(n.w, WC) + 1
        nz = tm.orr(x)
        oc = extract(cw - 1, 0, o[1]); cnt = ite(nz, zext(n, cw), const((1 << WC) - 1, cw))
        return [('output is the input with its leading zeros shifted out', NOT(eq(o[0], zext(ite(nz, sh, const(0, WD)), 128)))),
                ('count is the number of leading zeros (all ones for zero)', NOT(eq(o[1], zext(cnt, 128))))]
    return spec

def intlog2(n): return n.bit_length()

def rne(x, WR):
    """(rounded, overflow) of the bits x to WR bits, nearest even"""
    W = x.w
    if WR >= W: return (concat(x, const(0, WR - W)) if WR > W else x), const(0, 1)
    D = W - WR
    top = extract(W - 1, D, x); g = bit(x, D - 1); st = tm.orr(extract(D - 2, 0, x)) if D > 1 else FALSE
    up = AND(g, OR(st, bit(top, 0)))
    r = tm.add(concat(const(0, 1), top), zext(up, WR + 1))
    return extract(WR - 1, 0, r), bit(r, WR)

def build(tier):
    q = tier == 'quick'
    groups = []
    ws = list(range(2, 68)) if q else list(range(2, 128))
    for v in ('v1', 'v2', 'v3', 'v4'):
        for k, ch in enumerate(chunks(ws, 10 if q else 20)):
            g = Group('lz%s_%d' % (v, k), ''); code = '#include "thls/tops/fp_flopoco_add_single_%s.hpp"\nusing namespace thls;\n' % v
            for W in ch if v != 'v3' else []:
                WC = intlog2(W)
                n = 'lz%s_%d' % (v, W)
                code += 'VP %s(const u128*in,u128*out){ fw_uint<%d> r; fw_uint<%d> c; LZOCShifter<%d>(r,c,IN<%d>(in)); out[0]=OUT(r); out[1]=OUT(c); }\n' % (n, W, WC, W, W)
                g.job(n, [('x', W)], 2, lz_spec(W, WC), cost=W, config='normaliser %s, %d bits' % (v, W))
            if v == 'v3' and k == 0:
                code += 'VP lzclz(const u128*in,u128*out){ fw_uint<32> r; fw_uint<5> c; fw_uint<1> z; auto x=IN<32>(in); LZOCShifterCLZ(r,c,z,x); out[2]=OUT(z); if(z.to_bool()){ out[0]=0; out[1]=0; }else{ out[0]=OUT(r); out[1]=OUT(c);} }\n'
                def spec(i, o):
                    x = i['x']; nn, sh = lz(x); nz = tm.orr(x)
                    return [('zero indicator', NOT(eq(o[2], zext(NOT(nz), 128)))), ('output is the input with its leading zeros shifted out', AND(nz, NOT(eq(o[0], zext(sh, 128))))),
                            ('count is the number of leading zeros', AND(nz, NOT(eq(o[1], zext(nn, 128)))))]
                g.job('lzclz', [('x', 32)], 3, spec, config='byte-wise normaliser, 32 bits')
                code += 'VP clz8(const u128*in,u128*out){ auto x=IN<8>(in); out[1]=OUT(non_zero(x)); if(x.to_int()) out[0]=OUT(clz(x)); else out[0]=0; }\n'
                def spec8(i, o):
                    x = i['x']; nn, sh = lz(x); nz = tm.orr(x)
                    return [('leading zeros of a byte', AND(nz, NOT(eq(o[0], zext(nn, 128))))), ('non-zero indicator', NOT(eq(o[1], zext(nz, 128))))]
                g.job('clz8', [('x', 8)], 2, spec8, config='leading zeros of a byte')
            g.code = code
            if g.jobs: groups.append(g)
    INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\nusing namespace thls;\n'
    fx = [(0, -3), (0, -8), (1, -5), (-1, -7), (3, 0), (4, -20), (0, -23), (0, -31), (0, -32), (2, -40)]
    if not q: fx += [(m, l) for m in (-2, 0, 1, 5) for l in (-2, -4, -6, -9, -15, -16, -17, -27, -29, -30, -33, -45, -57, -60) if m - l + 1 >= 2]
    fx = [f for k, f in enumerate(fx) if f not in fx[:k]]
    for k, ch in enumerate(chunks(fx, 5)):
        g = Group('fix%d' % k, ''); code = INC
        for M, L in ch:
            W = M - L + 1; t = '%d_%d' % (M + 9, -L); X = 'fw_fix<%d,%d>(IN<%d>(in))' % (M, L, W)
            ds = [d for d in (1, 2, 3, 4, W // 2, W - 2, W - 1) if 0 < d < W]
            ds = [d for j, d in enumerate(ds) if d not in ds[:j]]
            body = ''; want = []
            for d in [0] + ds:
                body += ' { fw_uint<1> ov; auto r=round_to_lsb<%d>(x,ov); static_assert(r.W==%d,""); out[%d]=OUT(r.bits); out[%d]=OUT(ov); }' % (L + d, W - d, len(want), len(want) + 1)
                want.append(('rounding away %d bits is to nearest even' % d, lambda x, d=d: rne(x, x.w - d)[0])); want.append(('carry out of rounding away %d bits' % d, lambda x, d=d: rne(x, x.w - d)[1]))
            body += ' { fw_uint<1> ov; auto r=round_to_lsb<%d>(x,ov); out[%d]=OUT(r.bits); out[%d]=OUT(ov); }' % (L - 3, len(want), len(want) + 1)
            want.append(('rounding to more bits is exact', lambda x: concat(x, const(0, 3)))); want.append(('rounding to more bits never carries', lambda x: const(0, 1)))
            for d in ds:
                body += ' out[%d]=OUT(trunc_to_lsb<%d>(x).bits);' % (len(want), L + d); want.append(('truncation drops the low bits', lambda x, d=d: extract(x.w - 1, d, x)))
            for d in ds:
                body += ' { fw_uint<1> ov; auto r=truncate_to_msb<%d>(x,ov); out[%d]=OUT(r.bits); out[%d]=OUT(ov); }' % (M - d, len(want), len(want) + 1)
                want.append(('dropping high bits keeps the rest', lambda x, d=d: extract(x.w - d - 1, 0, x))); want.append(('dropping set high bits is reported', lambda x, d=d: tm.orr(extract(x.w - 1, x.w - d, x))))
            body += ' { auto r=ldexp_const<3>(x); static_assert(r.MSB==%d && r.LSB==%d,""); out[%d]=OUT(r.bits); }' % (M + 3, L + 3, len(want)); want.append(('scaling keeps the bits', lambda x: x))
            code += 'VP fx_%s(const u128*in,u128*out){ auto x=%s; %s }\n' % (t, X, body)
            def spec(i, o, want=list(want)): return [(l, NOT(eq(o[j], zext(f(i['x']), 128)))) for j, (l, f) in enumerate(want)]
            g.job('fx_' + t, [('x', W)], len(want), spec, config='fixed point with bits %d..%d' % (M, L))
        g.code = code; groups.append(g)
    pr = [((0, -4), (0, -6)), ((0, -6), (0, -4)), ((1, -7), (0, -3)), ((-1, -5), (2, -5)), ((0, -12), (0, -25)), ((0, -9), (0, -9)), ((0, -25), (1, -33))]
    if not q: pr += [((a, b), (c, d)) for a in (-1, 0, 2) for c in (0, 1) for b in (-3, -7, -16) for d in (-4, -8, -17, -30)]
    pr = [f for k, f in enumerate(pr) if f not in pr[:k]]
    for k, ch in enumerate(chunks(pr, 7)):
        g = Group('fix2_%d' % k, ''); code = INC
        for (m0, l0), (m1, l1) in ch:
            w0 = m0 - l0 + 1; w1 = m1 - l1 + 1; t = '%d_%d__%d_%d' % (m0 + 9, -l0, m1 + 9, -l1)
            M = max(m0, m1); L = min(l0, l1); W = M - L + 1
            al = lambda x, l, L=L, W=W: zext(concat(x, const(0, l - L)) if l > L else x, W)
            same = (m0, l0) == (m1, l1)
            code += 'VP f2_%s(const u128*in,u128*out){ auto x=fw_fix<%d,%d>(IN<%d>(in)); auto y=fw_fix<%d,%d>(IN<%d>(in+1)); auto p=x*y; static_assert(p.MSB==%d&&p.LSB==%d,""); out[0]=OUT(p.bits); auto s=sub_match(x,y); static_assert(s.MSB==%d&&s.LSB==%d,""); out[1]=OUT(s.bits); %s }\n' % (
                t, m0, l0, w0, m1, l1, w1, m0 + m1 + 1, l0 + l1, M, L, 'out[2]=OUT((x-y).bits);' if same else '')
            def spec(i, o, w0=w0, w1=w1, al=al, l0=l0, l1=l1, same=same):
                x, y = i['x'], i['y']; d = tm.sub(al(x, l0), al(y, l1))
                r = [('product is exact', NOT(eq(o[0], zext(tm.mul(zext(x, w0 + w1), zext(y, w0 + w1)), 128)))), ('difference of aligned operands', NOT(eq(o[1], zext(d, 128))))]
                if same: r.append(('difference', NOT(eq(o[2], zext(d, 128)))))
                return r
            g.job('f2_' + t, [('x', w0), ('y', w1)], 3 if same else 2, spec, config='fixed-point product and difference')
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C17', build, bounds=lambda t: 'each listed width or fixed-point format, all operand values', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
