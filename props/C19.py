"""C19 row-heap operations preserve the sum of the rows"""
from common import *
import random
INC = r'''#include "thls/tops/row_heap.hpp"
using namespace thls;
template<int W,int D> u128 RV(const row_heap_holder<W,D> &h){ u128 s=0; for(int i=0;i<D;i++) s+=(u128)h.rows[i].bits; return W==128 ? s : s&((((u128)1)<<(W&127))-1); }
'''

def build(tier):
    q = tier == 'quick'
    L = [(2, 8), (3, 2), (3, 8), (3, 32), (3, 33), (3, 64), (3, 65), (3, 100), (4, 5), (4, 16), (5, 8), (6, 6), (6, 31), (7, 4), (8, 3), (9, 2), (10, 4), (12, 3), (3, 1), (4, 1), (8, 1), (5, 63)]
    L += [(d, w) for d in (3, 4) for w in (2, 3, 7, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 66, 96, 101)] + [(5, 2), (5, 16), (5, 33), (6, 1), (6, 2), (6, 16), (7, 1), (7, 2), (7, 8), (8, 2), (9, 1), (9, 3), (10, 2), (11, 2), (12, 1), (13, 2), (14, 1), (16, 2)]
    if not q: L += [(d, w) for d in range(2, 9) for w in (1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 96, 127)] + [(d, w) for d in range(9, 21) for w in (1, 2, 3, 5, 8)] + [(10, 12), (12, 10), (16, 8), (24, 4), (32, 3)]
    L = [x for k, x in enumerate(L) if x not in L[:k]]
    groups = []
    mod = lambda t, w: zext(extract(w - 1, 0, t), 128)
    for k, ch in enumerate(chunks(L, 5)):
        g = Group('rh%d' % k, ''); code = INC
        for D, W in ch:
            h = 'fw_uint_to_row_heap(IN<%d>(in))' % W
            for j in range(1, D): h += '+IN<%d>(in+%d)' % (W, j)
            n = 'rh_%d_%d' % (D, W)
            code += 'VP %s(const u128*in,u128*out){ auto h=%s; typedef decltype(h) T; static_assert(T::depth==%d && T::width==%d,"shape"); auto c=compress(h); static_assert(decltype(c)::depth==2,"depth"); out[0]=RV(h); out[1]=RV(c); out[2]=OUT(collapse(c)); row_heap_holder<%d,%d> st; thls::detail::row_heap_compressor<%d,%d,0,0,%d>::compress(st,h); out[3]=RV(st); }\n' % (n, h, D, W, W, D // 3 * 2 + D % 3, W, D, D)
            def spec(i, o, D=D, W=W):
                s = const(0, 128)
                for j in range(D): s = tm.add(s, zext(i['x%d' % j], 128))
                s = mod(s, W)
                return [('heap holds the sum of the rows', NOT(eq(o[0], s))), ('one compression round keeps the sum', NOT(eq(o[3], s))), ('compression keeps the sum', NOT(eq(o[1], s))), ('collapsed word is the sum', NOT(eq(o[2], s)))]
            # one-bit rows: the code documents that it drops everything above, i.e. works modulo 2
            g.job(n, [('x%d' % j, W) for j in range(D)], 4, spec, cost=D * W, config='%d rows of %d bits' % (D, W))
        g.code = code; groups.append(g)
    # merges of unequal widths and depths
    M = [(3, 2, 5, 2), (5, 2, 3, 3), (8, 3, 8, 3), (1, 2, 4, 1), (16, 2, 9, 4), (33, 1, 31, 2), (64, 2, 20, 2), (20, 2, 70, 2), (4, 1, 9, 1), (32, 2, 33, 1), (33, 1, 64, 2), (31, 2, 32, 2), (63, 1, 64, 2), (65, 2, 64, 1), (7, 2, 7, 2), (1, 1, 2, 2), (2, 2, 1, 1), (96, 1, 32, 2), (12, 2, 3, 4)]
    if not q: M += [(a, x, b, y) for a in (1, 4, 17, 32, 65) for b in (2, 8, 31, 64, 90) for x in (1, 2, 4) for y in (1, 3)]
    for k, ch in enumerate(chunks(M, 5)):
        g = Group('rm%d' % k, ''); code = INC
        for a, x, b, y in ch:
            W = max(a, b); n = 'rm_%d_%d_%d_%d' % (a, x, b, y)
            mk = lambda w, d, o: 'fw_uint_to_row_heap(IN<%d>(in+%d))' % (w, o) + ''.join('+IN<%d>(in+%d)' % (w, o + j) for j in range(1, d))
            code += 'VP %s(const u128*in,u128*out){ auto p=%s; auto q=%s; auto h=p+q; typedef decltype(h) T; static_assert(T::depth==%d && T::width==%d,"shape"); out[0]=RV(h); out[1]=OUT(collapse(compress(h))); auto e=p+IN<%d>(in+%d); out[2]=RV(e); }\n' % (n, mk(a, x, 0), mk(b, y, x), x + y, W, b, x)
            def spec(i, o, a=a, x=x, b=b, y=y, W=W):
                s = const(0, 128)
                for j in range(x + y): s = tm.add(s, zext(i['x%d' % j], 128))
                t = const(0, 128)
                for j in range(x + 1): t = tm.add(t, zext(i['x%d' % j], 128))
                return [('merged heap holds the sum', NOT(eq(o[0], mod(s, W)))), ('merged heap compresses to the sum', NOT(eq(o[1], mod(s, W)))), ('adding one wider or narrower row', NOT(eq(o[2], mod(t, W))))]
            g.job(n, [('x%d' % j, a if j < x else b) for j in range(x + y)], 3, spec, cost=(x + y) * W, config='%d rows of %d bits merged with %d rows of %d bits' % (x, a, y, b))
        g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C19', build, bounds=lambda t: 'each listed number and width of rows, all row values', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
