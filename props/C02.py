"""C02 the single-path adders round correctly and agree with the dual-path adder"""
from common import *
from C01 import add_spec
V = {'v1': ('fp_flopoco_add_single_v1', 'add_single'), 'v2': ('fp_flopoco_add_single_v2', 'add_single'), 'v3': ('fp_flopoco_add_single_v3', 'add_single'),
     'v4': ('fp_flopoco_add_single_v4', 'add_single'), 'v5': ('fp_flopoco_add_single_v5', 'add_single_v5')}

def build(tier):
    q = tier == 'quick'
    base = [(4, 3), (4, 5), (4, 6), (5, 7), (5, 13), (6, 14), (4, 15), (4, 11), (4, 30), (5, 27), (8, 23), (6, 30)] + [f for f in [(9, 3), (7, 4), (8, 7), (4, 8), (12, 9), (5, 10), (4, 12), (11, 16), (7, 18), (9, 20), (6, 22), (5, 24), (4, 26), (10, 29), (7, 31), (12, 32), (3, 6), (12, 3), (4, 32), (11, 52), (8, 12), (6, 15), (8, 17), (8, 24), (8, 26), (9, 37), (10, 40), (11, 60)]] if q else [(e, f) for e in (3, 4, 5, 6, 8, 11) for f in (2, 3, 4, 5, 6, 7, 8, 10, 13, 14, 15, 11, 12, 16, 22, 23, 24, 26, 27, 29, 30, 31, 32)] + [(11, 52)]
    groups = []
    for v in sorted(V):
        hdr, fn = V[v]
        fm = list(base)
        if v == 'v3': fm = [(4, 12), (5, 13), (6, 14), (8, 18), (8, 23), (5, 11), (9, 15), (4, 16), (11, 19), (6, 20), (7, 22), (5, 24), (10, 26)] if q else [f for f in base if 11 <= f[1] <= 26]
        items = [(f, f) for f in fm]
        if v in ('v1', 'v5'):
            items += [((4, 3), (4, 6)), ((4, 6), (4, 3)), ((6, 5), (4, 5)), ((4, 5), (6, 9)), ((8, 10), (5, 16)), ((5, 15), (5, 8)), ((5, 8), (5, 15)), ((5, 9), (5, 8)), ((5, 9), (5, 7)), ((5, 10), (7, 7)), ((8, 15), (8, 14)), ((8, 16), (8, 18)), ((8, 16), (8, 10)), ((8, 26), (8, 27)), ((8, 30), (8, 20)), ((8, 16), (10, 16)), ((12, 40), (8, 40))]
            if not q: items += [((a, b), (c, d)) for a in (4, 8) for c in (4, 5, 8) for b in (5, 10, 16, 23) for d in (4, 9, 15, 23) if (a, b) != (c, d)]
        for k, ch in enumerate(chunks(items, 5)):
            g = Group('%s_%d' % (v, k), ''); code = '#include "thls/tops/%s.hpp"\nusing namespace thls;\n' % hdr
            for (fx, fy) in ch:
                E = max(fx[0], fy[0]); F = max(fx[1], fy[1])
                n = '%s_%d_%d' % ((v,) + fx) if fx == fy else '%s_%d_%d__%d_%d' % ((v,) + fx + fy)
                code += 'VP %s(const u128*in,u128*out){ out[0]=OUT(%s<%d,%d>(FP<%d,%d>(in),FP<%d,%d>(in+1))); }\n' % ((n, fn, E, F) + fx + fy)
                spec, wit = add_spec(fx, fy, E, F)
                g.job(n, fp_ins(fx, fy), 1, spec, witness=wit, cost=F, config='%s x:(%d,%d) y:(%d,%d)' % ((v,) + fx + fy))
            g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C02', build, bounds=lambda t: 'each listed variant and format pair, all operand bit patterns', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
