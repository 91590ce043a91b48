"""Hash-consed bit-vector terms with light, width-aware simplification.

A term is a node (op, args, width).  Every boolean is a width-1 vector.  The
simplifier only performs equivalence-preserving rewrites; the deciding step is
left to the solver back ends in solve.py.
"""
import sys
sys.setrecursionlimit(200000)

COARSE = False   # keep sums whole (used when partial remainders have to stay recognisable)
class T(object):
    __slots__ = ('op', 'a', 'w', 'id', 'kz', 'ko')
    def __repr__(self):
        return show(self, 4)

_tab = {}
_cnt = [0]

def reset():
    """Forget all terms (call between independent jobs)."""
    _tab.clear(); _cnt[0] = 0; _xc.clear(); _ic.clear()
    global FALSE, TRUE
    FALSE = const(0, 1); TRUE = const(1, 1)

def _mk(op, a, w, kz=0, ko=0):
    key = (op, a, w)
    t = _tab.get(key)
    if t is not None:
        return t
    m = (1 << w) - 1
    if op != 'const' and (kz | ko) == m:
        return const(ko, w)
    t = T()
    t.op = op; t.a = a; t.w = w; t.id = _cnt[0]; t.kz = kz; t.ko = ko
    _cnt[0] += 1
    _tab[key] = t
    return t

def const(v, w):
    m = (1 << w) - 1
    v &= m
    key = ('const', (v,), w)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = 'const'; t.a = (v,); t.w = w; t.id = _cnt[0]; t.kz = m & ~v; t.ko = v
        _cnt[0] += 1
        _tab[key] = t
    return t

def var(name, w):
    return _mk('var', (name,), w)

def is_c(t): return t.op == 'const'
def cv(t):
    assert t.op == 'const', 'not constant: %r' % (t,)
    return t.a[0]
def scv(t):
    v = t.a[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v

def mask(w): return (1 << w) - 1
def umin(t): return t.ko
def umax(t): return mask(t.w) & ~t.kz

# ---------------------------------------------------------------- structure
_merging = [0]
def concat(*parts):
    """MSB first."""
    flat = []
    for p in parts:
        if p is None or p.w == 0: continue
        if p.op == 'concat': flat.extend(p.a)
        else: flat.append(p)
    out = []
    for p in flat:
        if out:
            q = out[-1]
            if q.op == 'const' and p.op == 'const':
                out[-1] = const((q.a[0] << p.w) | p.a[0], q.w + p.w); continue
            # contiguous slices of one base
            if q.op == 'ext' and p.op == 'ext' and q.a[0] is p.a[0] and q.a[2] == p.a[1] + 1:
                out[-1] = extract(q.a[1], p.a[2], q.a[0]); continue
            if q.op == 'ite' and p.op == 'ite' and q.a[0] is p.a[0] and _merging[0] < 24:   # merging and splitting could alternate for ever
                _merging[0] += 1
                try: r = ite(q.a[0], concat(q.a[1], p.a[1]), concat(q.a[2], p.a[2]))
                finally: _merging[0] -= 1
                if r.op == 'concat':
                    out.pop(); out.extend(r.a)
                else:
                    out[-1] = r
                continue
        out.append(p)
    if len(out) == 1: return out[0]
    w = 0; kz = 0; ko = 0
    for p in out:
        kz = (kz << p.w) | p.kz; ko = (ko << p.w) | p.ko; w += p.w
    return _mk('concat', tuple(out), w, kz, ko)

_xc = {}
def extract(hi, lo, x):
    if x.op in ('const', 'var'): return _extract(hi, lo, x)
    k = (x.id, hi, lo)
    r = _xc.get(k)
    if r is None: r = _xc[k] = _extract(hi, lo, x)
    return r
def _extract(hi, lo, x):
    w = hi - lo + 1
    assert 0 <= lo <= hi < x.w, (hi, lo, x.w)
    if w == x.w: return x
    op = x.op
    if op == 'const': return const(x.a[0] >> lo, w)
    m = mask(w)
    if ((x.kz | x.ko) >> lo) & m == m: return const(x.ko >> lo, w)
    if op == 'ext': return extract(hi + x.a[2], lo + x.a[2], x.a[0])
    if op == 'concat':
        res = []; pos = x.w
        for p in x.a:
            top = pos - 1; bot = pos - p.w; pos = bot
            h = min(hi, top); l = max(lo, bot)
            if h >= l: res.append(extract(h - bot, l - bot, p))
        return concat(*res)
    if op in ('and', 'or', 'xor'):
        return {'and': band, 'or': bor, 'xor': bxor}[op](extract(hi, lo, x.a[0]), extract(hi, lo, x.a[1]))
    if op == 'not': return bnot(extract(hi, lo, x.a[0]))
    if op == 'ite': return ite(x.a[0], extract(hi, lo, x.a[1]), extract(hi, lo, x.a[2]))
    if lo == 0 and op in ('add', 'sub') and not COARSE:
        return {'add': add, 'sub': sub}[op](extract(hi, 0, x.a[0]), extract(hi, 0, x.a[1]))
    return _mk('ext', (x, hi, lo), w, (x.kz >> lo) & m, (x.ko >> lo) & m)

def box(x):
    """x, opaque to the rewriting of slices (keeps long multiplexer chains from being split bit by bit)"""
    if x.op in ('const', 'var', 'box') or x.w == 1: return x
    return _mk('box', (x,), x.w, x.kz, x.ko)
def zext(x, w):
    if w == x.w: return x
    assert w > x.w, (w, x.w)
    return concat(const(0, w - x.w), x)
def trunc(x, w):
    return extract(w - 1, 0, x)
def zx(x, w):
    """zero extend or truncate"""
    return zext(x, w) if w >= x.w else trunc(x, w)
def sext(x, w):
    if w == x.w: return x
    n = w - x.w
    s = extract(x.w - 1, x.w - 1, x)
    if is_c(s): return concat(const(mask(n) if cv(s) else 0, n), x)
    return concat(rep(s, n), x)
def rep(b, n):
    if n == 0: return None
    return ite(b, const(mask(n), n), const(0, n))
def bit(x, i): return extract(i, i, x)

# ---------------------------------------------------------------- bitwise
def _segments(kx, ky, w):
    """split positions where the (known) status changes; returns list (hi,lo)"""
    segs = []
    hi = w - 1
    def st(i): return ((kx >> i) & 1, (ky >> i) & 1)
    i = w - 1
    while i >= 0:
        s = st(i); j = i
        while j - 1 >= 0 and st(j - 1) == s: j -= 1
        segs.append((i, j)); i = j - 1
    return segs

def _bitwise(op, x, y, f):
    w = x.w
    assert w == y.w, (op, x.w, y.w)
    kx = x.kz | x.ko; ky = y.kz | y.ko
    if (kx or ky) and w > 1 and not (is_c(x) and is_c(y)):
        segs = _segments(kx, ky, w)
        if len(segs) > 1:
            return concat(*[f(extract(h, l, x), extract(h, l, y)) for h, l in segs])
    return None

def _runs(c, w):
    """maximal runs of equal bits of a constant, from the top: (hi, lo, bit)"""
    r = []; i = w - 1
    while i >= 0:
        b = (c >> i) & 1; j = i
        while j and (c >> (j - 1)) & 1 == b: j -= 1
        r.append((i, j, b)); i = j - 1
    return r

def band(x, y):
    w = x.w; m = mask(w)
    if x is y: return x
    if is_c(x) and is_c(y): return const(x.a[0] & y.a[0], w)
    if is_c(y): x, y = y, x
    if is_c(x):
        if x.a[0] == 0: return x
        if x.a[0] == m: return y
    if x.op == 'not' and x.a[0] is y: return const(0, w)
    if y.op == 'not' and y.a[0] is x: return const(0, w)
    if is_c(x) and w > 1:
        rs = _runs(x.a[0], w)
        if len(rs) <= 4: return concat(*[extract(h, l, y) if b else const(0, h - l + 1) for h, l, b in rs])
        if not rs[0][2] or not rs[-1][2]:      # zeros at an end: the masked bits are not looked at
            h = rs[1][0] if not rs[0][2] else w - 1; l = rs[-2][1] if not rs[-1][2] else 0
            p = [band(const(x.a[0] >> l, h - l + 1), extract(h, l, y))]
            if h < w - 1: p = [const(0, w - 1 - h)] + p
            if l: p.append(const(0, l))
            return concat(*p)
    r = _seg_and(x, y)
    if r is not None: return r
    if w == 1:
        # absorption on small conjunctions
        if x.op == 'and' and (y is x.a[0] or y is x.a[1]): return x
        if y.op == 'and' and (x is y.a[0] or x is y.a[1]): return y
        if x.op == 'or' and (y is x.a[0] or y is x.a[1]): return y
        if y.op == 'or' and (x is y.a[0] or x is y.a[1]): return x
    if x.id > y.id: x, y = y, x
    return _mk('and', (x, y), w, x.kz | y.kz, x.ko & y.ko)

def _seg_and(x, y):
    # split where a bit of x or y is known zero / known one
    w = x.w
    if w == 1: return None
    kx = (x.kz | x.ko); ky = (y.kz | y.ko)
    if kx or ky:
        return _bitwise('and', x, y, band)
    return None

def bor(x, y):
    w = x.w; m = mask(w)
    if x is y: return x
    if is_c(x) and is_c(y): return const(x.a[0] | y.a[0], w)
    if is_c(y): x, y = y, x
    if is_c(x):
        if x.a[0] == 0: return y
        if x.a[0] == m: return x
    if x.op == 'not' and x.a[0] is y: return const(m, w)
    if y.op == 'not' and y.a[0] is x: return const(m, w)
    if w > 1:
        r = _bitwise('or', x, y, bor)
        if r is not None: return r
    else:
        if x.op == 'or' and (y is x.a[0] or y is x.a[1]): return x
        if y.op == 'or' and (x is y.a[0] or x is y.a[1]): return y
        if x.op == 'and' and (y is x.a[0] or y is x.a[1]): return y
        if y.op == 'and' and (x is y.a[0] or x is y.a[1]): return x
        if x.op == 'and' and y.op == 'and':
            # (p&q)|(p&~q) -> p
            for i in (0, 1):
                for j in (0, 1):
                    if x.a[i] is y.a[j]:
                        return band(x.a[i], bor(x.a[1 - i], y.a[1 - j]))
    if x.id > y.id: x, y = y, x
    return _mk('or', (x, y), w, x.kz & y.kz, x.ko | y.ko)

def bxor(x, y):
    w = x.w; m = mask(w)
    if x is y: return const(0, w)
    if is_c(x) and is_c(y): return const(x.a[0] ^ y.a[0], w)
    if is_c(y): x, y = y, x
    if is_c(x):
        if x.a[0] == 0: return y
        if x.a[0] == m: return bnot(y)
    if w > 1:
        r = _bitwise('xor', x, y, bxor)
        if r is not None: return r
    if x.op == 'not': return bnot(bxor(x.a[0], y))
    if y.op == 'not': return bnot(bxor(x, y.a[0]))
    if x.id > y.id: x, y = y, x
    return _mk('xor', (x, y), w, (x.kz & y.kz) | (x.ko & y.ko), (x.kz & y.ko) | (x.ko & y.kz))

def bnot(x):
    w = x.w
    if is_c(x): return const(~x.a[0], w)
    if x.op == 'not': return x.a[0]
    if x.op == 'concat': return concat(*[bnot(p) for p in x.a])
    return _mk('not', (x,), w, x.ko, x.kz)

_ic = {}
def ite(c, x, y):
    if c.op == 'const': return x if c.a[0] else y
    if x is y: return x
    k = (c.id, x.id, y.id)
    r = _ic.get(k)
    if r is None: r = _ic[k] = _ite(c, x, y)
    return r
def _ite(c, x, y):
    assert c.w == 1 and x.w == y.w, (c.w, x.w, y.w)
    if is_c(c): return x if c.a[0] else y
    if x is y: return x
    if c.op == 'not': c, x, y = c.a[0], y, x
    w = x.w
    if w == 1:
        if is_c(x): return bor(c, y) if x.a[0] else band(bnot(c), y)
        if is_c(y): return bor(bnot(c), x) if y.a[0] else band(c, x)
    if x.op == 'ite' and x.a[0] is c: x = x.a[1]
    if y.op == 'ite' and y.a[0] is c: y = y.a[2]
    if x is y: return x
    # split out equal known constant bits
    if w > 1:
        eqm = (x.kz & y.kz) | (x.ko & y.ko)
        if x.op == 'concat' or y.op == 'concat':
            # identical slices as well
            cuts = set()
            for t in (x, y):
                if t.op == 'concat':
                    pos = t.w
                    for p in t.a:
                        pos -= p.w
                        if pos: cuts.add(pos)
            if len(cuts) <= 12:
                cl = sorted(cuts, reverse=True)
                hi = w - 1
                segs = []
                for cpos in cl + [0]:
                    segs.append((hi, cpos)); hi = cpos - 1
                for h, l in segs:
                    if extract(h, l, x) is extract(h, l, y):
                        eqm |= mask(h - l + 1) << l
        if eqm:
            segs = _segments(eqm, 0, w)
            if len(segs) > 1:
                return concat(*[ite(c, extract(h, l, x), extract(h, l, y)) for h, l in segs])
    return _mk('ite', (c, x, y), w, x.kz & y.kz, x.ko & y.ko)

# ---------------------------------------------------------------- arithmetic
def _tz(t):
    """number of known-zero low bits"""
    n = 0
    kz = t.kz
    while n < t.w and (kz >> n) & 1: n += 1
    return n
def _lz(t):
    n = 0
    while n < t.w and (t.kz >> (t.w - 1 - n)) & 1: n += 1
    return n

def add(x, y):
    w = x.w
    assert w == y.w, (x.w, y.w)
    if is_c(x) and is_c(y): return const(x.a[0] + y.a[0], w)
    if is_c(x): x, y = y, x
    if is_c(y):
        if y.a[0] == 0: return x
        if x.op == 'add' and is_c(x.a[1]): return add(x.a[0], const(x.a[1].a[0] + y.a[0], w))
    if (x.kz | y.kz) == mask(w): return bor(x, y)
    tz = max(_tz(x), _tz(y))
    if tz and not COARSE:
        lo = bor(extract(tz - 1, 0, x), extract(tz - 1, 0, y))
        return concat(add(extract(w - 1, tz, x), extract(w - 1, tz, y)), lo)
    lz = min(_lz(x), _lz(y))
    if lz > 1:
        n = w - lz + 1
        return zext(add(trunc(x, n), trunc(y, n)), w)
    if y.op != 'const' and x.id > y.id: x, y = y, x
    kz = 0
    return _mk('add', (x, y), w, kz, 0)

def neg(x): return sub(const(0, x.w), x)

def sub(x, y):
    w = x.w
    assert w == y.w
    if x is y: return const(0, w)
    if is_c(y): return add(x, const(-y.a[0], w))
    tz = _tz(y)
    if tz and tz < w and not COARSE:
        return concat(sub(extract(w - 1, tz, x), extract(w - 1, tz, y)), extract(tz - 1, 0, x))
    return _mk('sub', (x, y), w)

def mul(x, y):
    w = x.w
    assert w == y.w
    if is_c(x) and is_c(y): return const(x.a[0] * y.a[0], w)
    if is_c(x): x, y = y, x
    if is_c(y):
        c = y.a[0]
        if c == 0: return y
        if c & (c - 1) == 0: return shl(x, const(c.bit_length() - 1, w))
    tzx = _tz(x); tzy = _tz(y)
    tz = tzx + tzy
    if tz >= w: return const(0, w)
    if tz:
        n = w - tz
        return concat(mul(zx(extract(w - 1, tzx, x), n), zx(extract(w - 1, tzy, y), n)), const(0, tz))
    n = (w - _lz(x)) + (w - _lz(y))
    if n < w:
        return zext(mul(trunc(x, n), trunc(y, n)), w)
    if x.id > y.id: x, y = y, x
    return _mk('mul', (x, y), w)

def udiv(x, y):
    w = x.w
    if is_c(y):
        d = y.a[0]
        if d == 0: return const(mask(w), w)
        if is_c(x): return const(x.a[0] // d, w)
        if d & (d - 1) == 0: return lshr(x, const(d.bit_length() - 1, w))
    n = w - min(_lz(x), _lz(y))
    if n < w and n > 0: return zext(udiv(trunc(x, n), trunc(y, n)), w) if not (y.ko == 0) else _mk('udiv', (x, y), w)
    return _mk('udiv', (x, y), w)
def urem(x, y):
    w = x.w
    if is_c(y):
        d = y.a[0]
        if d == 0: return x
        if is_c(x): return const(x.a[0] % d, w)
        if d & (d - 1) == 0: return band(x, const(d - 1, w))
    return _mk('urem', (x, y), w)
def _abs(x): return ite(bit(x, x.w - 1), neg(x), x)
def sdiv(x, y):
    q = udiv(_abs(x), _abs(y))
    return ite(bxor(bit(x, x.w - 1), bit(y, y.w - 1)), neg(q), q)
def srem(x, y):
    r = urem(_abs(x), _abs(y))
    return ite(bit(x, x.w - 1), neg(r), r)

def shl(x, s):
    w = x.w
    if is_c(s):
        k = s.a[0]
        if k >= w: return const(0, w)
        if k == 0: return x
        return concat(extract(w - 1 - k, 0, x), const(0, k))
    if is_c(x) and x.a[0] == 0: return x
    return _vshift('shl', x, s)
def lshr(x, s):
    w = x.w
    if is_c(s):
        k = s.a[0]
        if k >= w: return const(0, w)
        if k == 0: return x
        return zext(extract(w - 1, k, x), w)
    if is_c(x) and x.a[0] == 0: return x
    return _vshift('lshr', x, s)
def ashr(x, s):
    w = x.w
    if is_c(s):
        k = min(s.a[0], w - 1)
        if k == 0: return x
        return sext(extract(w - 1, k, x), w)
    return _vshift('ashr', x, s)

def _vshift(op, x, s):
    """variable shift as a mux chain (log shifter): keeps known bits precise"""
    w = x.w
    f = {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op]
    r = x
    lw = max(1, (w - 1).bit_length())
    for i in range(min(lw, s.w)):
        r = ite(bit(s, i), f(r, const(1 << i, max(8, w))), r)
    if s.w > lw:
        big = ne(extract(s.w - 1, lw, s), const(0, s.w - lw))
        full = f(x, const(w, max(8, w)))
        r = ite(big, full, r)
    return r

# ---------------------------------------------------------------- predicates
def eq(x, y):
    w = x.w
    assert w == y.w, (x.w, y.w)
    if x is y: return const(1, 1)
    if (x.kz & y.ko) | (x.ko & y.kz): return const(0, 1)
    if is_c(x) and is_c(y): return const(int(x.a[0] == y.a[0]), 1)
    if is_c(x): x, y = y, x
    if w == 1:
        if is_c(y): return x if y.a[0] else bnot(x)
        return bnot(bxor(x, y))
    if x.op == 'concat' or y.op == 'concat':
        z = x if x.op == 'concat' else y
        r = const(1, 1); pos = w
        for p in z.a:
            h = pos - 1; l = pos - p.w; pos = l
            r = band(r, eq(extract(h, l, x), extract(h, l, y)))
        return r
    if is_c(y):
        if x.op == 'ite':
            a, b = x.a[1], x.a[2]
            if is_c(a) or is_c(b):
                return ite(x.a[0], eq(a, y), eq(b, y))
        if x.op == 'add' and is_c(x.a[1]):
            return eq(x.a[0], const(y.a[0] - x.a[1].a[0], w))
        if x.op == 'not': return eq(x.a[0], bnot(y))
        if x.op == 'xor' and is_c(x.a[0]): return eq(x.a[1], bxor(x.a[0], y))
    if x.id > y.id and not is_c(y): x, y = y, x
    return _mk('eq', (x, y), 1)
def ne(x, y): return bnot(eq(x, y))
def ult(x, y):
    w = x.w
    assert w == y.w
    if x is y: return const(0, 1)
    if umax(x) < umin(y): return const(1, 1)
    if umin(x) >= umax(y): return const(0, 1)
    if w == 1: return band(bnot(x), y)
    if is_c(y) and y.a[0] == 1: return eq(x, const(0, w))
    if is_c(x) and x.a[0] == 0: return ne(y, const(0, w))
    # drop equal leading known bits
    eqm = (x.kz & y.kz) | (x.ko & y.ko)
    n = w
    while n > 0 and (eqm >> (n - 1)) & 1: n -= 1
    if n < w:
        if n == 0: return const(0, 1)
        return ult(trunc(x, n), trunc(y, n))
    # drop equal low bits
    if is_c(y):
        k = _tz(y)
        if k: return ult(extract(w - 1, k, x), extract(w - 1, k, y))
    if is_c(x):
        k = 0
        while k < w and (x.a[0] >> k) & 1: k += 1
        if k and k < w: return ult(extract(w - 1, k, x), extract(w - 1, k, y))
        if k == w: return const(0, 1)
    if x.op == 'ite' and is_c(y) and (is_c(x.a[1]) or is_c(x.a[2])):
        return ite(x.a[0], ult(x.a[1], y), ult(x.a[2], y))
    return _mk('ult', (x, y), 1)
def ule(x, y): return bnot(ult(y, x))
def ugt(x, y): return ult(y, x)
def uge(x, y): return bnot(ult(x, y))
def _flip(x):
    w = x.w
    if w == 1: return bnot(x)
    return concat(bnot(bit(x, w - 1)), trunc(x, w - 1))
def slt(x, y): return ult(_flip(x), _flip(y))
def sle(x, y): return bnot(slt(y, x))
def sgt(x, y): return slt(y, x)
def sge(x, y): return bnot(slt(x, y))

def AND(*xs):
    r = TRUE
    for x in xs: r = band(r, x)
    return r
def OR(*xs):
    r = FALSE
    for x in xs: r = bor(r, x)
    return r
def NOT(x): return bnot(x)
def IMP(a, b): return bor(bnot(a), b)
def orr(x):  # or-reduce
    return ne(x, const(0, x.w))

def ctlz(x, w=None):
    """count leading zeros (of x), result width w"""
    w = w or x.w
    r = const(x.w, w)
    for i in range(x.w):
        r = ite(bit(x, i), const(x.w - 1 - i, w), r)
    return r
def cttz(x, w=None):
    w = w or x.w
    r = const(x.w, w)
    for i in reversed(range(x.w)):
        r = ite(bit(x, i), const(i, w), r)
    return r
def ctpop(x, w=None):
    w = w or x.w
    n = x.w.bit_length()
    r = const(0, n)
    for i in range(x.w):
        r = add(r, zx(bit(x, i), n))
    return zx(r, w)

FALSE = const(0, 1)
TRUE = const(1, 1)

# ---------------------------------------------------------------- traversal
def topo(roots):
    seen = set(); order = []
    st = [(r, 0) for r in roots]
    while st:
        t, ph = st.pop()
        if ph:
            order.append(t); continue
        if t.id in seen: continue
        seen.add(t.id)
        st.append((t, 1))
        for c in t.a:
            if isinstance(c, T) and c.id not in seen: st.append((c, 0))
    return order

def variables(roots):
    return [t for t in topo(roots) if t.op == 'var']

def evaluate(roots, env):
    """env: name -> int; missing variables read 0"""
    val = {}
    for t in topo(roots):
        a = t.a; op = t.op; m = mask(t.w)
        if op == 'const': v = a[0]
        elif op == 'var': v = env.get(a[0], 0) & m
        elif op == 'concat':
            v = 0
            for p in a: v = (v << p.w) | val[p.id]
        elif op == 'ext': v = (val[a[0].id] >> a[2]) & m
        elif op == 'box': v = val[a[0].id]
        elif op == 'and': v = val[a[0].id] & val[a[1].id]
        elif op == 'or': v = val[a[0].id] | val[a[1].id]
        elif op == 'xor': v = val[a[0].id] ^ val[a[1].id]
        elif op == 'not': v = ~val[a[0].id] & m
        elif op == 'ite': v = val[a[1].id] if val[a[0].id] else val[a[2].id]
        elif op == 'add': v = (val[a[0].id] + val[a[1].id]) & m
        elif op == 'sub': v = (val[a[0].id] - val[a[1].id]) & m
        elif op == 'mul': v = (val[a[0].id] * val[a[1].id]) & m
        elif op == 'udiv': v = val[a[0].id] // val[a[1].id] if val[a[1].id] else m
        elif op == 'urem': v = val[a[0].id] % val[a[1].id] if val[a[1].id] else val[a[0].id]
        elif op == 'eq': v = int(val[a[0].id] == val[a[1].id])
        elif op == 'ult': v = int(val[a[0].id] < val[a[1].id])
        else: raise Exception('evaluate ' + op)
        val[t.id] = v
    return [val[r.id] for r in roots]

def rebuild(t, newa):
    op = t.op
    if op == 'concat': return concat(*newa)
    if op == 'ext': return extract(t.a[1], t.a[2], newa[0])
    return {'and': band, 'or': bor, 'xor': bxor, 'not': bnot, 'box': box, 'ite': ite, 'add': add, 'sub': sub,
            'mul': mul, 'udiv': udiv, 'urem': urem, 'eq': eq, 'ult': ult}[op](*newa)

def substitute(roots, m):
    """m: dict term.id -> term (or var name -> term)"""
    res = {}
    for t in topo(roots):
        if t.id in m: res[t.id] = m[t.id]; continue
        if t.op == 'var':
            res[t.id] = m.get(t.a[0], t); continue
        if t.op == 'const': res[t.id] = t; continue
        na = [res[c.id] if isinstance(c, T) else c for c in t.a]
        if all((not isinstance(c, T)) or n is c for c, n in zip(t.a, na)): res[t.id] = t
        else: res[t.id] = rebuild(t, [n for n in na if isinstance(n, T)])
    return [res[r.id] for r in roots]

def show(t, d):
    if t.op == 'const': return '%d:%d' % (t.a[0], t.w)
    if t.op == 'var': return '%s:%d' % (t.a[0], t.w)
    if d == 0: return '#%d:%d' % (t.id, t.w)
    return '(%s %s)' % (t.op, ' '.join(show(c, d - 1) if isinstance(c, T) else str(c) for c in t.a))
