"""C21 one step of the LUT-optimised generator is the linear map its parameters (bits, taps, seed) name"""
from common import *
INC = '#include "thls/tops/lut_opt.hpp"\nusing namespace thls;\n'

def matrix(n, t, s):
    """the documented construction: seeded LCG, t successive permutations of the rotation as taps, one more for the outputs"""
    s &= 0xffffffff
    def permute(s, p):
        p = list(p)
        for j in range(n, 1, -1):
            r = (s >> 16) % j
            p[j - 1], p[r] = p[r], p[j - 1]
            s = (s * 1664525 + 1013904223) & 0xffffffff
        return s, p
    cyc = [(i + 1) % n for i in range(n)]
    p = cyc; lev = []
    for d in range(t):
        s, p = permute(s, p); lev.append(p)
    s, outp = permute(s, cyc)
    return [sorted(set(l[o] for l in lev)) for o in outp]      # first entry is the highest output bit

def build(tier):
    q = tier == 'quick'
    L = [(16, 6, 1), (2, 1, 1), (3, 2, 7), (4, 3, 123456789), (5, 1, 42), (8, 4, 0), (7, 5, 0xffffffff), (12, 3, 99), (16, 4, 949333985), (24, 4, 5), (33, 3, 77)]
    L += [(n, t, s) for n, t, s in ((6, 2, 3), (9, 3, 65535), (10, 6, 0x80000000), (11, 2, 31), (13, 5, 17), (14, 3, 2), (15, 4, 4), (17, 3, 5), (20, 5, 3141592653), (31, 2, 8), (32, 4, 1), (32, 2, 0x7fffffff), (16, 1, 10), (16, 16, 3), (8, 8, 8))]
    if not q: L += [(n, t, s) for n in (2, 3, 4, 6, 9, 13, 16, 20, 32) for t in (1, 2, 3, 5) for s in (1, 2, 65535, 0x80000000, 3141592653)] + [(40, 4, 12), (64, 3, 1)]
    groups = []
    for k, ch in enumerate(chunks(L, 2 if q else 6)):
        g = Group('lut%d' % k, '', ['-ftemplate-depth=4000']); code = INC
        for n, t, s in ch:
            e = 'lut_%d_%d_%d' % (n, t, s)
            code += 'VP %s(const u128*in,u128*out){ typedef lut_opt_spec<%d,%d,%du> L; auto x=IN<%d>(in); auto y=IN<%d>(in+1); out[0]=OUT(L::step(x)); out[1]=OUT(L::step(x^y)); out[2]=OUT(L::step(y)); out[3]=OUT(L::step(L::step(x))); }\n' % (e, n, t, s, n, n)
            def spec(i, o, n=n, t=t, s=s):
                M = matrix(n, t, s)
                def ap(x):
                    bs = []
                    for taps in M:
                        b = FALSE
                        for j in taps: b = tm.bxor(b, bit(x, j))
                        bs.append(b)
                    return concat(*bs)
                r = ap(i['x'])
                return [('each output bit is the exclusive-or of exactly its connected state bits', NOT(eq(o[0], zext(r, 128)))),
                        ('the step is linear', NOT(eq(o[1], tm.bxor(o[0], o[2])))), ('two steps are the square of the map', NOT(eq(o[3], zext(ap(r), 128))))]
            g.job(e, [('x', n), ('y', n)], 4, spec, cost=n, config='%d state bits, %d taps, seed %d' % (n, t, s))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C21', build, bounds=lambda t: 'each listed parameter triple, all states', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
