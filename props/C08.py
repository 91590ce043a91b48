"""C08 conversion between formats rounds correctly and saturates"""
from common import *
INC = '#include "thls/tops/fp_flopoco_primitives.hpp"\nusing namespace thls;\n'

def items(tier):
    if tier == 'quick':
        fs = [(4, 3), (4, 8), (5, 10), (6, 4), (8, 7), (8, 23), (7, 16), (11, 52), (4, 4), (4, 2)]
        l = [(a, b) for a in fs for b in fs]
        l += [((8, 24), (8, 23)), ((5, 12), (5, 10)), ((9, 30), (8, 14)), ((6, 20), (6, 1)), ((3, 5), (2, 4)), ((2, 3), (12, 40)), ((15, 100), (11, 52)), ((11, 52), (15, 105)), ((8, 64), (8, 63)), ((8, 66), (7, 64))] + [(a, b) for a in ((4, 6), (5, 9), (6, 13), (9, 18), (7, 30), (12, 21)) for b in ((3, 3), (5, 5), (6, 12), (8, 20), (9, 31), (12, 14))]
    else:
        fs = [(e, f) for e in (3, 4, 5, 6, 8, 11) for f in (1, 2, 3, 4, 5, 8, 10, 15, 16, 23, 31, 32, 52)]
        l = [(a, b) for a in fs for b in fs]
    return l

def build(tier):
    groups = []
    for k, ch in enumerate(chunks(items(tier), 14 if tier == 'quick' else 60)):
        g = Group('conv%d' % k, ''); code = INC
        for a, b in ch:
            n = 'conv_%d_%d__%d_%d' % (a + b)
            code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(convert<%d,%d>(FP<%d,%d>(in))); }\n' % ((n,) + b + a)
            def ref(i, a=a, b=b): return O.convert(dec(i, 'x', *a), *b)
            def spec(i, o, b=b, ref=ref): return [('conversion is the value rounded to nearest even, saturated to zero or infinity', NOT(O.same(O.flopoco(b[0], b[1], o[0]), ref(i))))]
            def wit(i, a=a, b=b, ref=ref):
                x = dec(i, 'x', *a); r = ref(i)
                return [('normal', AND(x.normal, r.normal))] + ([('overflow', AND(x.normal, r.inf)), ('underflow', AND(x.normal, r.zero))] if b[0] < a[0] else [])
            g.job(n, fp_ins(a), 1, spec, witness=wit, config='convert (%d,%d)->(%d,%d)' % (a + b))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C08', build, bounds=lambda t: 'each listed format pair, all argument bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
