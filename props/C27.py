"""C27 software floating point agrees with IEEE arithmetic (subnormals included), single and double precision"""
from common import *
import fpterm as FT
INC = '#include "thls/tops/policy_softfloat.hpp"\nusing namespace thls;\ntemplate<class T,class U> T M(U v){ T r; memcpy(&r,&v,sizeof r); return r; }\n'
CMP = ['==', '!=', '<', '>', '<=', '>=']
REL = ('+', 'add', FT.s_add), ('*', 'mul', FT.s_mul)

def same_ieee(o, r, E, F):
    """bit for bit; a nan must be a quiet nan of any payload"""
    nan = ult(const(((1 << E) - 1) << F, E + F), extract(E + F - 1, 0, r))
    isq = AND(NOT(tm.orr(NOT(extract(E + F - 1, F, o)))), bit(o, F - 1))
    return ite(nan, isq, eq(extract(E + F, 0, o), r))

def build(tier):
    q = tier == 'quick'
    groups = []
    for nm, E, F, C, U in (('s', 8, 23, 'float32_t', 'uint32_t'), ('d', 11, 52, 'float64_t', 'uint64_t')):
        W = 1 + E + F
        g = Group('sf' + nm, ''); code = INC
        def kind(x, E=E, F=F):
            ex = extract(E + F - 1, F, x); return eq(ex, const(0, E))
        for sym, n, f in REL:
            code += 'VP %s%s(const u128*in,u128*out){ typedef policy_softfloat_%s::value_t V; V a=M<V,%s>((%s)in[0]), b=M<V,%s>((%s)in[1]); out[0]=M<%s,V>(a%sb); }\n' % (n, nm, 'single' if nm == 's' else 'double', U, U, U, U, U, sym)
            def spec(i, o, f=f, E=E, F=F):
                return [('IEEE result, nearest even', NOT(same_ieee(o[0], f(i['x'], i['y'], E, F), E, F)))]
            ks = list(range(F)) if not q or nm == 's' else [0, 1, 26, 51]      # quick, double: these positions of a subnormal's leading one
            sub = lambda x, k, W=W, E=E, F=F: concat(bit(x, W - 1), const(0, E), const(1, F - k), extract(k - 1, 0, x)) if k else concat(bit(x, W - 1), const(1, E + F))
            zz = lambda x, E=E, F=F: NOT(tm.orr(extract(E + F - 1, 0, x)))
            if n == 'mul':
                def cubes(i, kind=kind, ks=ks, sub=sub, zz=zz):
                    x, y = i['x'], i['y']
                    r = [AND(NOT(kind(x)), NOT(kind(y))), AND(kind(x), kind(y)), OR(zz(x), zz(y))]
                    for k in ks: r += [(NOT(kind(y)), {'x': sub(x, k)}), (NOT(kind(x)), {'y': sub(y, k)})]
                    return r
                nc = 3 + 2 * len(ks)
                def pre(i, kind=kind, ks=ks, sub=sub, zz=zz):
                    ok = lambda x: OR(NOT(kind(x)), zz(x), *[eq(x, sub(x, k)) for k in ks])
                    return AND(ok(i['x']), ok(i['y']))
                if len(ks) == F: pre = None
            else:
                rg = [(1, 1), (2, 3), (4, 7), (8, 15), (16, 31), (32, 55), (56, (1 << E) - 1)]
                def cubes(i, W=W, E=E, F=F, rg=rg):
                    x, y = i['x'], i['y']; ex, ey = extract(E + F - 1, F, x), extract(E + F - 1, F, y)
                    s = eq(tm.bxor(bit(x, W - 1), bit(y, W - 1)), const(1, 1)); r = []
                    l = ult(extract(E + F - 1, 0, x), extract(E + F - 1, 0, y)); w = E + 1
                    z = eq(ex, const(0, E)); t = eq(ex, const(-1, E))
                    for sg in (s, NOT(s)):
                        for p, qq in ((ex, ey), (ey, ex)):
                            d = tm.sub(zext(p, w), zext(qq, w))
                            for lo, hi in rg: r.append(AND(sg, tm.uge(d, const(lo, w)), tm.uge(const(hi, w), d)))
                        for m in (l, NOT(l)):
                            for c in (z, t, AND(NOT(z), NOT(t))): r.append(AND(sg, m, c, eq(ex, ey)))
                    return r
                nc = 2 * (2 * len(rg) + 6); pre = None
                if nm == 's':
                    def cubes(i, W=W, E=E, F=F):
                        s = tm.bxor(bit(i['x'], W - 1), bit(i['y'], W - 1)); l = ult(extract(E + F - 1, 0, i['x']), extract(E + F - 1, 0, i['y']))
                        return [AND(a, b) for a in (s, NOT(s)) for b in (l, NOT(l))]
                    nc = 4
            j = g.job(n + nm, [('x', W), ('y', W)], 1, spec, pre=pre, cubes=cubes, cost=F, config='softfloat %s, %d bits' % (n, W))
            j.ncubes = nc
        code += 'VP cmp%s(const u128*in,u128*out){ typedef %s V; V a=M<V,%s>((%s)in[0]), b=M<V,%s>((%s)in[1]); %s }\n' % (nm, C, U, U, U, U, ' '.join('out[%d]=(a%sb);' % (k, c) for k, c in enumerate(CMP)))
        def specc(i, o, E=E, F=F):
            x, y = i['x'], i['y']; un = FT.s_un(x, y, E, F); e = FT.s_eq(x, y, E, F); l = FT.s_lt(x, y, E, F); gt = FT.s_lt(y, x, E, F)
            want = [e, NOT(e), l, gt, OR(l, e), OR(gt, e)]
            return [('operator %s' % c, NOT(eq(o[k], zext(want[k], 128)))) for k, c in enumerate(CMP)]
        g.job('cmp' + nm, [('x', W), ('y', W)], 6, specc, config='softfloat comparisons, %d bits' % W)
        code += 'VP div%s(const u128*in,u128*out){ typedef %s V; V a=M<V,%s>((%s)in[0]), b=M<V,%s>((%s)in[1]); out[0]=M<%s,V>(a/b); }\n' % (nm, C, U, U, U, U, U)
        def specd(i, o, E=E, F=F): return [('IEEE quotient, nearest even', NOT(same_ieee(o[0], FT.s_div(i['x'], i['y'], E, F), E, F)))]
        # special operands: everything but two finite non-zero ones
        def pres(i, E=E, F=F):
            def sp(x): ex = extract(E + F - 1, F, x); return OR(NOT(tm.orr(NOT(ex))), NOT(tm.orr(extract(E + F - 1, 0, x))))
            return OR(sp(i['x']), sp(i['y']))
        g.job('div' + nm, [('x', W), ('y', W)], 1, specd, pre=pres, cost=F, config='softfloat division, %d bits: zero, infinite and nan operands' % W)
        g.code = code; groups.append(g)
        # two finite non-zero operands: families of operands (the quotient approximation multiplies twice and is out of reach as a whole)
        import random
        rnd = random.Random(27); fam = []
        K = (10 if nm == 's' else 7) if q else (12 if nm == 's' else 9)
        ys = [0, 1, (1 << F) - 1, 1 << (F - 1), (1 << F) // 3, 5 << (F - 3)] + [rnd.getrandbits(F) for _ in range((14 if nm == 's' else 9) if q else 40)]
        if q and nm == 'd': ys = ys[1:4] + ys[6:]
        for k, cy in enumerate(ys):
            Y = (1 << F) + cy
            z = (rnd.getrandbits(F) << 1) | (1 << (F + 1)) | 1            # a quotient half-way between two representable ones
            X = (z * Y) >> (F + 1)
            while X >> (F + 1): X >>= 1
            if k % 3 == 2: fam.append((cy, rnd.getrandbits(F - K), 1, 'n'))
            else: fam.append((cy, (X & ((1 << F) - 1)) >> K, 0, 'n'))
            if k % 4 == 1: fam.append((cy, rnd.getrandbits(F - K), 0, 's'))
            if k % 4 == 3: fam.append((cy, rnd.getrandbits(F - K), 0, 't'))
        for k, ch in enumerate(chunks(fam, 4)):
            g = Group('sfd%s%d' % (nm, k), ''); code = INC
            for cy, cx, hi, kd in ch:
                n = 'dv%s_%x_%x_%d%s' % (nm, cy, cx, hi, kd)
                if kd == 's' and hi == 0: cx >>= 2
                fx = lambda i, hi=hi, cx=cx, F=F, K=K: concat(i['f'], const(cx, F - K)) if hi else concat(const(cx, F - K), i['f'])
                xe = '((%s)in[2]<<%d)|%dull' % (U, F - K, cx) if hi else '(%dull<<%d)|(%s)in[2]' % (cx, K, U)
                code += 'VP %s(const u128*in,u128*out){ typedef %s V; V a=M<V,%s>((%s)(((%s)in[0]<<%d)|%s)), b=M<V,%s>((%s)(((%s)in[1]<<%d)|%dull)); out[0]=M<%s,V>(a/b); }\n' % (n, C, U, U, U, F, xe, U, U, U, F, cy, U)
                def specf(i, o, E=E, F=F, cy=cy, fx=fx): return [('IEEE quotient, nearest even', NOT(same_ieee(o[0], FT.s_div(concat(i['x'], fx(i)), concat(i['y'], const(cy, F)), E, F), E, F)))]
                def pref(i, E=E, kd=kd):
                    ex, ey = extract(E - 1, 0, i['x']), extract(E - 1, 0, i['y'])
                    return AND(eq(ex, const(0, E)) if kd == 's' else NOT(eq(ex, const(0, E))), eq(ey, const(0, E)) if kd == 't' else NOT(eq(ey, const(0, E))), NOT(eq(ex, const(-1, E))), NOT(eq(ey, const(-1, E))))
                j = g.job(n, [('x', 1 + E), ('y', 1 + E), ('f', K)], 1, specf, pre=pref, cubes=(lambda i, pref=pref: [pref(i)]), cost=F, config='softfloat division, %d bits: divisor fraction 0x%x, dividend fraction %s, %s, every sign and exponent' % (
                    W, cy, ('0x%x below %d symbolic bits' if hi else '0x%x above %d symbolic bits') % (cx, K), {'s': 'subnormal dividend', 't': 'subnormal divisor', 'n': 'normal operands'}[kd]))
                j.ncubes = 1
            g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C27', build, bounds=lambda t: 'single and double precision; addition, multiplication and comparisons: all bit patterns; division: all pairs with a zero, infinite or NaN operand, and for two finite non-zero operands the listed families only (divisor fraction fixed, all but a few bits of the dividend fraction fixed, every sign and exponent)', assumptions=['clang lowers the instantiation to LLVM IR faithfully', 'default rounding mode'])
