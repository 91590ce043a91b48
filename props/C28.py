"""C28 conversion from and to native double"""
from common import *
INC = '#include "thls/tops/fp_flopoco.hpp"\n#include <cmath>\nusing namespace thls;\n'

def to_dbl(x, E, F):
    """the double of that value; (bits, does a double hold it)"""
    w = 14; b = O.bias(E)
    e = tm.add(zext(x.exp, w), const(1023 - b, w))                   # biased double exponent, signed
    m = concat(x.frac, const(0, 52 - F)) if F < 52 else x.frac
    full = concat(const(1, 1), m)
    low = eq(e, const(0, w))                                          # only one step below the normal range can occur
    nrm = concat(x.sign, extract(10, 0, e), m)
    sub = concat(x.sign, const(0, 11), extract(52, 1, full))
    r = ite(low, sub, nrm)
    r = ite(x.zero, concat(x.sign, const(0, 63)), r)
    r = ite(x.inf, concat(x.sign, const(0x7ff, 11), const(0, 52)), r)
    fits = OR(x.zero, x.inf, x.nan, AND(NOT(tm.sge(e, const(2047, w))), OR(NOT(low), NOT(bit(full, 0)))))
    return r, fits

def from_dbl(d, E, F):
    """truncated to the format; None-free: returns an oracle number"""
    sg = bit(d, 63); ex = extract(62, 52, d); fr = extract(51, 0, d); b = O.bias(E); w = 14
    e = tm.add(zext(ex, w), const(b - 1023, w))
    f = extract(51, 52 - F, fr) if F <= 52 else concat(fr, const(0, F - 52))
    top = eq(ex, const(-1, 11)); bot = eq(ex, const(0, 11))
    lo = OR(bot, tm.slt(e, const(0, w))); hi = tm.sge(e, const(1 << E, w))
    num = O.flopoco(E, F, concat(const(1, 2), sg, extract(E - 1, 0, e), f))
    r = O.sel(lo, O.special(E, F, 0, sg), O.sel(hi, O.special(E, F, 2, sg), num))
    r = O.sel(AND(top, NOT(tm.orr(fr))), O.special(E, F, 2, sg), r)
    return O.sel(AND(top, tm.orr(fr)), O.special(E, F, 3, const(0, 1)), r)

def build(tier):
    fm = [f for f in GRID if f[0] <= 11] + [(4, 3), (5, 10), (8, 7), (8, 23), (6, 16), (9, 31), (10, 32), (4, 9), (5, 4), (6, 23), (7, 30), (8, 40), (9, 12), (5, 33), (11, 20), (7, 52), (3, 5), (10, 52), (11, 8), (11, 29), (11, 51), (11, 52)]
    fm = [f for k, f in enumerate(fm) if f not in fm[:k]]
    if tier != 'quick': fm = sorted(set(fm + [f for f in GRID if f[0] <= 11] + [(E, F) for E in (5, 8, 11) for F in range(33, 53)]))
    wide = [(12, 3), (12, 40), (12, 52), (5, 60), (11, 63)]
    groups = []
    for k, ch in enumerate(chunks(fm + wide, 6)):
        g = Group('dbl%d' % k, ''); code = INC
        for E, F in ch:
            d = dict(E=E, F=F)
            if (E, F) not in wide:
                code += 'VP td_%(E)d_%(F)d(const u128*in,u128*out){ auto x=FP<%(E)d,%(F)d>(in); double d=x.to_double(); uint64_t b; memcpy(&b,&d,8); out[0]=b; }\n' % d
                def spec(i, o, E=E, F=F):
                    x = dec(i, 'x', E, F); r, fits = to_dbl(x, E, F)
                    nan = AND(eq(extract(62, 52, o[0]), const(-1, 11)), tm.orr(extract(51, 0, o[0])))
                    return [('to_double returns exactly the value', NOT(ite(x.nan, nan, eq(o[0], zext(r, 128)))), fits)]
                g.job('td_%d_%d' % (E, F), fp_ins((E, F)), 1, spec, config='to_double (%d,%d)' % (E, F),
                      witness=lambda i, E=E, F=F: [('negative number', AND(dec(i, 'x', E, F).normal, bit(i['x'], E + F)))])
            code += 'VP fd_%(E)d_%(F)d(const u128*in,u128*out){ uint64_t b=(uint64_t)in[0]; double d; memcpy(&d,&b,8); out[0]=OUT(fp_flopoco<%(E)d,%(F)d>(d)); }\n' % d
            def specf(i, o, E=E, F=F): return [('double converts to its value truncated to the format', NOT(O.same(O.flopoco(E, F, o[0]), from_dbl(i['d'], E, F))))]
            g.job('fd_%d_%d' % (E, F), [('d', 64)], 1, specf, config='from double (%d,%d)' % (E, F), cost=2,
                  witness=lambda i, E=E, F=F: [('number in range', from_dbl(i['d'], E, F).normal)])
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C28', build, bounds=lambda t: 'each listed format, all bit patterns and all doubles', assumptions=['clang lowers the instantiation to LLVM IR faithfully', 'frexp and ldexp behave as ISO C specifies (modelled by circuits validated in selfcheck.py)'])
