"""C18 bit-heap operations preserve the weighted sum of everything added"""
from common import *
import random
INC = r'''#include "thls/tops/bit_heap.hpp"
using namespace thls;
// the value a heap stands for, counted bit by bit
template<int H> u128 HV(const bit_heap_root<H> &x){ u128 s=0; for(int i=0;i<H;i++) s+=((u128)x.bits.bits>>i)&1; return s; }
template<int H,class T> u128 HV(const bit_heap_link<H,T> &x){ u128 s=0; for(int i=0;i<H;i++) s+=((u128)x.bits.bits>>i)&1; return (s<<T::width)+HV(x.lsbs); }
template<class T> u128 MV(const T &x){ return HV(x)&((((u128)1)<<T::width)-1); }
template<int P,class T> typename thls::detail::bit_heap_shift_left_impl<P,T>::heap_t SHL(const T &x){ return thls::detail::bit_heap_shift_left_impl<P,T>::build(x); }
'''

class Node:
    """a heap expression: C++ text, width, value as a function of the inputs (width bits)"""
    def __init__(s, cpp, w, val, h): s.cpp, s.w, s.val, s.h = cpp, w, val, h
def leaf(k, w): return Node('fw_uint_to_bit_heap(IN<%d>(in+%d))' % (w, k), w, lambda i, n='x%d' % k: zext(i[n], 128), [1] * w)
def merge(a, b):
    w = max(a.w, b.w); p = lambda h: h + [0] * (w - len(h))
    return Node('merge_bit_heaps(%s,%s)' % (a.cpp, b.cpp), w, lambda i: tm.add(a.val(i), b.val(i)), [x + y for x, y in zip(p(a.h), p(b.h))])
def shl(a, n): return Node('SHL<%d>(%s)' % (n, a.cpp), a.w + n, lambda i: concat(extract(127 - n, 0, a.val(i)), const(0, n)) if n else a.val(i), [0] * n + a.h)
def pad(a, n): return Node('pad_bit_heap<%d>(%s)' % (a.w + n, a.cpp), a.w + n, a.val, a.h + [0] * n)

def shapes(tier):
    q = tier == 'quick'
    L = []
    def left(ws):
        n = leaf(0, ws[0])
        for k in range(1, len(ws)): n = merge(n, leaf(k, ws[k]))
        return n
    def tree(ws, k0=0):
        if len(ws) == 1: return leaf(k0, ws[0])
        m = len(ws) // 2
        return merge(tree(ws[:m], k0), tree(ws[m:], k0 + m))
    for n, w in [(1, 1), (1, 7), (2, 1), (2, 5), (2, 33), (3, 1), (3, 4), (3, 32), (4, 8), (5, 6), (5, 16), (6, 5), (7, 4), (8, 4), (9, 3), (10, 2), (11, 1), (12, 2), (4, 20)]: L.append(('eq%dx%d' % (n, w), [w] * n, left([w] * n)))
    for ws in [(3, 5), (5, 3), (8, 1, 4), (1, 8, 4), (2, 9, 5, 7), (12, 3, 3, 6, 1), (33, 31, 2), (64, 20, 32), (60, 64)]: L.append(('mx' + '_'.join(map(str, ws)), list(ws), left(ws)))
    for ws in [(4, 4, 4, 4), (3, 6, 2, 7, 5), (8, 1, 1, 1, 1, 1), (16, 15, 14, 13)]: L.append(('tr' + '_'.join(map(str, ws)), list(ws), tree(list(ws))))
    # partial-product staircases and pads
    for n, w, st in [(3, 4, 1), (4, 4, 1), (4, 6, 2), (5, 5, 1), (3, 8, 8), (4, 3, 5), (6, 4, 2), (3, 20, 7), (7, 7, 1)]:
        nd = leaf(0, w)
        for k in range(1, n): nd = merge(nd, shl(leaf(k, w), k * st))
        L.append(('st%d_%d_%d' % (n, w, st), [w] * n, nd))
    nd = merge(pad(merge(leaf(0, 3), leaf(1, 3)), 4), shl(leaf(2, 2), 1)); L.append(('pd1', [3, 3, 2], nd))
    nd = merge(pad(leaf(0, 1), 1), merge(leaf(1, 1), leaf(2, 1))); L.append(('pd2', [1, 1, 1], nd))
    nd = shl(pad(leaf(0, 5), 3), 6); L.append(('pd3', [5], nd))
    nd = merge(shl(merge(leaf(0, 4), leaf(1, 6)), 2), shl(merge(leaf(2, 1), merge(leaf(3, 1), leaf(4, 1))), 5)); L.append(('pd4', [4, 6, 1, 1, 1], nd))
    rnd = random.Random(5)
    for r in range(10 if q else 120):
        mx = 7 if q else 10
        n = rnd.randint(2, mx); ws = []; pool = []
        for k in range(n):
            w = rnd.choice([1, 2, 3, 4, 5, 8, 11]); ws.append(w); pool.append(leaf(k, w))
        while len(pool) > 1:
            a = pool.pop(rnd.randrange(len(pool))); b = pool.pop(rnd.randrange(len(pool)))
            o = rnd.random()
            if o < .3: a = shl(a, rnd.randint(0, 5))
            elif o < .5: b = pad(b, rnd.randint(0, 5))
            pool.append(merge(a, b) if o < .95 else merge(b, shl(a, 1)))
        if pool[0].w <= 100: L.append(('rnd%d' % r, ws, pool[0]))
    if not q:
        for n, w in [(2, 64), (3, 64), (4, 32), (5, 32), (6, 16), (7, 16), (8, 16), (9, 8), (10, 8), (12, 6), (16, 4), (20, 3), (24, 2)]: L.append(('big%dx%d' % (n, w), [w] * n, left([w] * n)))
        for n, w, st in [(8, 8, 1), (10, 10, 1), (12, 12, 1), (9, 6, 3)]:
            nd = leaf(0, w)
            for k in range(1, n): nd = merge(nd, shl(leaf(k, w), k * st))
            L.append(('st%d_%d_%d' % (n, w, st), [w] * n, nd))
    return L

def build(tier):
    groups = []
    for k, ch in enumerate(chunks(shapes(tier), 6 if tier == 'quick' else 9)):
        g = Group('heap%d' % k, ''); code = INC
        for name, ws, nd in ch:
            mh = max(nd.h)
            code += 'VP bh_%s(const u128*in,u128*out){ auto h=%s; typedef decltype(h) T; static_assert(T::width==%d,"width"); auto c=compress(h); static_assert(decltype(c)::max_height<=2,"not compressed"); static_assert(decltype(c)::width==%d,"width"); auto st=thls::detail::compress_step<T>::build(h);\n' % (name, nd.cpp, nd.w, nd.w)
            code += ' out[0]=MV(h); out[1]=MV(c); out[2]=OUT(bit_heap_collapse(c)); out[3]=MV(st.second); out[4]=MV(pad_bit_heap<%d>(h)); %s }\n' % (nd.w + 2, 'out[5]=OUT(bit_heap_collapse(h));' if mh <= 2 else '')
            def spec(i, o, nd=nd, mh=mh):
                full = nd.val(i); v = zext(extract(nd.w - 1, 0, full), 128)
                L = [('heap holds the sum of what was added', NOT(eq(o[0], v))), ('compression keeps the sum', NOT(eq(o[1], v))), ('collapsed word is the sum', NOT(eq(o[2], v))), ('one compression step keeps the sum', NOT(eq(o[3], v))), ('padding keeps everything added', NOT(eq(o[4], zext(extract(nd.w + 1, 0, full), 128))))]
                if mh <= 2: L.append(('collapse of an uncompressed low heap is the sum', NOT(eq(o[5], v))))
                return L
            g.job('bh_' + name, [('x%d' % j, w) for j, w in enumerate(ws)], 6 if mh <= 2 else 5, spec, cost=len(ws) * nd.w, config='heap %s: %d words, width %d, height %d' % (name, len(ws), nd.w, mh))
        g.code = code; groups.append(g)
    # single column compressor
    g = Group('col', ''); code = INC
    for H in range(1, 14 if tier == 'quick' else 33):
        code += 'VP col_%d(const u128*in,u128*out){ auto r=thls::detail::compress_column_impl<%d>::build(IN<%d>(in)); out[0]=OUT(r.first); out[1]=OUT(r.second); }\n' % (H, H, H)
        def spec(i, o, H=H):
            def pc(t, n):
                s = const(0, 8)
                for j in range(n): s = tm.add(s, zext(bit(t, j), 8))
                return s
            nc = (H + 1) // 3; ns = (H + 2) // 3
            tot = tm.add(tm.add(pc(o[0], nc), pc(o[0], nc)), pc(o[1], ns)) if nc else pc(o[1], ns)
            return [('column compression keeps the number of set bits', NOT(eq(tot, pc(i['x'], H)))),
                    ('no more outputs than stated', OR(tm.orr(extract(127, nc, o[0])), tm.orr(extract(127, ns, o[1]))))]
        g.job('col_%d' % H, [('x', H)], 2, spec, config='column of %d bits' % H)
    g.code = code; groups.append(g)
    return groups
if __name__ == '__main__':
    main('C18', build, bounds=lambda t: 'each listed heap shape (number, width and position of the words, merge order), all word values', assumptions=['clang lowers the instantiation to LLVM IR faithfully'])
