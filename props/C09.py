"""C09 promotion to a wider format preserves the value exactly"""
from common import *
INC = '#include "thls/tops/fp_promote.hpp"\nusing namespace thls;\ntemplate<int E,int F> fp_ieee<E,F> IE(const u128*p){ return fp_ieee<E,F>(IN<1+E+F>(p)); }\n'

def ieee(E, F, x):
    """IEEE container with subnormals read as zero -> number"""
    s = bit(x, E + F); e = extract(E + F - 1, F, x); f = extract(F - 1, 0, x)
    z = NOT(tm.orr(e)); on = NOT(tm.orr(NOT(e))); fz = NOT(tm.orr(f))
    fl = ite(z, const(0, 2), ite(on, ite(fz, const(2, 2), const(3, 2)), const(1, 2)))
    return O.FP(E, F, fl, s, e, f)

def to_ieee_wide(x, E, F):
    """number (narrower exponent range, no subnormals needed) -> value in a container with wider exponent; compare as numbers"""
    return O.widen(x, E, F)

def items(tier):
    fs = [(4, 3), (4, 7), (5, 10), (8, 7), (8, 23), (11, 52), (6, 1), (2, 3), (12, 32), (5, 5), (6, 12), (9, 18), (7, 24), (10, 30)] if tier == 'quick' else \
         [(e, f) for e in (2, 3, 4, 5, 8, 11) for f in (1, 2, 3, 4, 8, 10, 15, 23, 31, 32, 52)]
    return [(a, b) for a in fs for b in fs if b[0] >= a[0] and b[1] >= a[1]]

def build(tier):
    groups = []
    for k, ch in enumerate(chunks(items(tier), 12 if tier == 'quick' else 50)):
        g = Group('prom%d' % k, ''); code = INC
        for a, b in ch:
            t = '%d_%d__%d_%d' % (a + b)
            def job(n, body, w, spec, what, wit=None):
                nonlocal code
                code += 'VP %s(const u128*in,u128*out){ %s }\n' % (n, body)
                g.job(n, [('x', w)], 1, spec, witness=wit, config='promote %s (%d,%d)->(%d,%d)' % ((what,) + a + b))
            ff = [('value, sign and class preserved', None)]
            d = dict(e=a[0], f=a[1], E=b[0], F=b[1])
            job('pff_' + t, 'fp_flopoco<%(E)d,%(F)d> r; promote(r,FP<%(e)d,%(f)d>(in)); out[0]=OUT(r);' % d, a[0] + a[1] + 3,
                lambda i, o, a=a, b=b: [('value, sign and class preserved', NOT(O.same(O.flopoco(b[0], b[1], o[0]), O.widen(dec(i, 'x', *a), *b))))], 'internal to internal')
            job('pii_' + t, 'fp_ieee<%(E)d,%(F)d> r; promote(r,IE<%(e)d,%(f)d>(in)); out[0]=OUT(r.bits);' % d, a[0] + a[1] + 1,
                lambda i, o, a=a, b=b: [('value, sign and class preserved', NOT(O.same(ieee(b[0], b[1], o[0]), O.widen(ieee(a[0], a[1], i['x']), *b))))], 'IEEE to IEEE')
            job('pif_' + t, 'fp_flopoco<%(E)d,%(F)d> r; promote(r,IE<%(e)d,%(f)d>(in)); out[0]=OUT(r);' % d, a[0] + a[1] + 1,
                lambda i, o, a=a, b=b: [('value, sign and class preserved', NOT(O.same(O.flopoco(b[0], b[1], o[0]), O.widen(ieee(a[0], a[1], i['x']), *b))))], 'IEEE to internal')
            if b[0] > a[0]:
                job('pfi_' + t, 'fp_ieee<%(E)d,%(F)d> r; promote(r,FP<%(e)d,%(f)d>(in)); out[0]=OUT(r.bits);' % d, a[0] + a[1] + 3,
                    lambda i, o, a=a, b=b: [('value, sign and class preserved', NOT(O.same(ieee(b[0], b[1], o[0]), O.widen(dec(i, 'x', *a), *b))))], 'internal to IEEE')
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C09', build, bounds=lambda t: 'each listed pair of formats (destination at least as wide in both fields), all argument bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
