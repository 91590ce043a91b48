"""C20 multiplication through the bit heap is the exact product"""
from common import *
INC = '#include "thls/tops/bit_heap_mul.hpp"\nusing namespace thls;\n'

def build(tier):
    q = tier == 'quick'
    L = [(3, 5, 7), (3, 3, 3), (3, 3, 4), (3, 4, 3), (2, 5, 5), (1, 3, 4), (4, 4, 9), (4, 9, 4), (4, 7, 6), (8, 7, 8), (5, 6, 11), (3, 6, 6), (2, 3, 8), (8, 9, 3), (17, 12, 9), (6, 7, 7)]
    L += [(t, a, b) for t in (1, 2, 3, 4) for a in range(1, 7) for b in range(1, 7)] + [(t, a, b) for t in (3, 5, 6) for a, b in ((1, 12), (12, 1), (2, 33), (33, 2), (3, 62), (1, 64), (64, 1))]
    if not q: L += [(t, a, b) for t in (1, 2, 3, 4, 5, 8) for a in range(1, 10) for b in range(1, 10) if a + b >= 2 and (a + b) <= 16] + [(12, 17, 20), (17, 24, 24), (8, 16, 8)]
    L = [x for k, x in enumerate(L) if x not in L[:k]]
    groups = []
    for k, ch in enumerate(chunks(L, 3 if q else 8)):
        g = Group('bm%d' % k, ''); code = INC; g.flags = ['-Wl,--no-as-needed', '-lgmp']
        for t, a, b in ch:
            n = 'bm_%d_%d_%d' % (t, a, b)
            code += 'VP %s(const u128*in,u128*out){ auto h=bit_heap_mul<%d>(IN<%d>(in),IN<%d>(in+1)); static_assert(decltype(h)::width==%d,"width"); out[0]=OUT(bit_heap_collapse(compress(h))); }\n' % (n, t, a, b, a + b)
            def spec(i, o, a=a, b=b): return [('collapsed heap is the exact product', NOT(eq(o[0], zext(tm.mul(zext(i['x'], a + b), zext(i['y'], a + b)), 128))))]
            kw = {}
            if a + b > 15 and max(a, b) >= 5:      # split on the bits of the shorter operand
                nm, w = ('x', a) if a <= b else ('y', b)
                kw['cubes'] = lambda i, nm=nm, w=w: [eq(extract(w - 1, max(0, w - 3), i[nm]), const(v, min(3, w))) for v in range(1 << min(3, w))]
            g.job(n, [('x', a), ('y', b)], 1, spec, cost=a * b, config='%d x %d bits in tiles of %d' % (a, b, t), **kw)
            if kw: g.jobs[-1].ncubes = 1 << min(3, w)
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C20', build, bounds=lambda t: 'each listed tile size and pair of operand widths, all operand values', assumptions=['clang lowers the instantiation to LLVM IR faithfully', 'the GMP and iostream calls of the debug printing have no effect on the result'])
