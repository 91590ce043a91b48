"""Reference semantics as terms: FloPoCo-style formats (2 exception bits, sign,
E exponent bits with the whole range usable, F fraction bits) and IEEE formats,
with round-to-nearest-even carried out with unbounded exponent and then
saturated to zero / infinity.  Written independently of the code under test and
cross-validated against SMT-LIB's FloatingPoint theory (selfcheck.py)."""
import term as tm
from term import const, concat, extract, ite, eq, ult, band, bor, bnot, zext, sext, AND, OR, NOT, bit

ZERO, NORMAL, INF, NAN = 0, 1, 2, 3

class FP(object):
    """a number: cls is a dict of 1-bit terms zero/normal/inf/nan"""
    def __init__(self, E, F, flags, sign, exp, frac):
        self.E = E; self.F = F; self.flags = flags; self.sign = sign; self.exp = exp; self.frac = frac
    def is_(self, c): return eq(self.flags, const(c, 2))
    @property
    def zero(self): return self.is_(ZERO)
    @property
    def normal(self): return self.is_(NORMAL)
    @property
    def inf(self): return self.is_(INF)
    @property
    def nan(self): return self.is_(NAN)
    @property
    def bits(self):
        return concat(self.flags, self.sign, self.exp, self.frac)
    @property
    def sig(self): return concat(const(1, 1), self.frac)   # F+1 bits
    @property
    def mag(self): return concat(self.exp, self.frac)

def flopoco(E, F, x):
    """decode the low E+F+3 bits of x"""
    return FP(E, F, extract(E + F + 2, E + F + 1, x), bit(x, E + F), extract(E + F - 1, F, x), extract(F - 1, 0, x))

def bias(E): return (1 << (E - 1)) - 1

def same(a, b, zero_sign=True):
    """observably the same number: payload bits of zero/inf/nan do not count"""
    sg = eq(a.sign, b.sign)
    return AND(eq(a.flags, b.flags),
               OR(a.nan, AND(a.zero, sg if zero_sign else tm.TRUE), AND(a.inf, sg), AND(a.normal, sg, eq(a.mag, b.mag))))

def sel(c, a, b):
    return FP(a.E, a.F, ite(c, a.flags, b.flags), ite(c, a.sign, b.sign), ite(c, a.exp, b.exp), ite(c, a.frac, b.frac))

def special(E, F, cls, sign):
    return FP(E, F, const(cls, 2), sign, const(0, E), const(0, F))

def round_pack(E, F, sign, sig, exp, rnd='rne'):
    """sig: normalised (top bit one) with F+1+k bits (k>=0), last bit may be sticky;
    exp: signed biased exponent of the leading bit, any width.  Unbounded-exponent
    rounding, then exp<0 -> zero, exp>=2^E -> infinity."""
    k = sig.w - (F + 1)
    assert k >= 0
    ew = max(exp.w, E + 1) + 2
    e = sext(exp, ew)
    if k > 0:
        top = zext(extract(sig.w - 1, k, sig), F + 2)
        g = bit(sig, k - 1)
        s = tm.orr(extract(k - 2, 0, sig)) if k >= 2 else tm.FALSE
        if rnd == 'rne': up = AND(g, OR(s, bit(top, 0)))
        elif rnd == 'rz': up = tm.FALSE
        else: raise Exception(rnd)
        r = tm.add(top, zext(up, F + 2))
    else:
        r = zext(sig, F + 2)
    carry = bit(r, F + 1)
    frac = ite(carry, extract(F, 1, r), extract(F - 1, 0, r)) if F > 0 else None
    e = tm.add(e, zext(carry, ew))
    neg = bit(e, ew - 1)
    ovf = AND(NOT(neg), tm.orr(extract(ew - 1, E, e)))
    flags = ite(neg, const(ZERO, 2), ite(ovf, const(INF, 2), const(NORMAL, 2)))
    return FP(E, F, flags, sign, extract(E - 1, 0, e), frac)

def clz_norm(x):
    """returns (normalised x, leading zero count) ; x nonzero"""
    w = x.w
    n = w.bit_length()
    cnt = const(0, n)
    k = 1
    while k * 2 < w: k *= 2
    while k >= 1:
        z = eq(extract(w - 1, w - k, x), const(0, k))
        x = ite(z, tm.shl(x, const(k, 16)), x)
        cnt = tm.add(cnt, ite(z, const(k, n), const(0, n)))
        k //= 2
    return x, cnt

def shr_sticky(x, s, extra):
    """(x << extra) >> s with the lost bits ORed into the last bit; s unsigned term"""
    w = x.w + extra
    v = concat(x, const(0, extra))
    st = tm.FALSE
    nb = (w).bit_length()
    for i in range(min(nb, s.w)):
        b = bit(s, i); k = 1 << i
        lost = tm.orr(extract(min(k, w) - 1, 0, v))
        v = ite(b, tm.lshr(v, const(k, 32)), v)
        st = OR(st, AND(b, lost))
    if s.w > nb:
        big = tm.orr(extract(s.w - 1, nb, s))
        st = OR(st, AND(big, tm.orr(x))); v = ite(big, const(0, w), v)
    return concat(extract(w - 1, 1, v), OR(bit(v, 0), st))

def widen(x, E, F):
    """exact re-encoding in a format at least as wide in both fields"""
    if x.E == E and x.F == F: return x
    e = tm.add(zext(x.exp, E + 1) if E >= x.E else None, const(bias(E) - bias(x.E), E + 1))
    return FP(E, F, x.flags, x.sign, extract(E - 1, 0, e), concat(x.frac, const(0, F - x.F)) if F > x.F else x.frac)

def add(x, y, cancel_sign=None):
    """correctly rounded x+y; exact cancellation gives a zero with sign `cancel_sign`"""
    E, F = x.E, x.F
    sw = ult(x.mag, y.mag)
    a = sel(sw, y, x); b = sel(sw, x, y)       # |a| >= |b|
    d = tm.sub(a.exp, b.exp)
    A = zext(concat(a.sig, const(0, 3)), F + 5)
    B = zext(shr_sticky(b.sig, d, 3), F + 5)
    dif = tm.bxor(a.sign, b.sign)
    s = ite(dif, tm.sub(A, B), tm.add(A, B))
    zero = eq(s, const(0, F + 5))
    n, lz = clz_norm(s)
    ew = E + max(2, lz.w) + 1
    e = tm.sub(tm.add(zext(a.exp, ew), const(1, ew)), zext(lz, ew))
    nn = round_pack(E, F, a.sign, n, e)
    csign = cancel_sign if cancel_sign is not None else const(0, 1)
    r = sel(zero, special(E, F, ZERO, csign), nn)
    r = sel(y.zero, x, r); r = sel(x.zero, y, r)
    # zero + zero: (-0)+(-0) = -0 otherwise +0
    r = sel(AND(x.zero, y.zero), special(E, F, ZERO, band(x.sign, y.sign)), r)
    r = sel(y.inf, special(E, F, INF, y.sign), r)
    r = sel(x.inf, special(E, F, INF, x.sign), r)
    isnan = OR(x.nan, y.nan, AND(x.inf, y.inf, tm.bxor(x.sign, y.sign)))
    return sel(isnan, special(E, F, NAN, const(0, 1)), r)

def mul(x, y, ER, FR):
    """correctly rounded product into (ER,FR)"""
    sign = tm.bxor(x.sign, y.sign)
    pw = x.F + y.F + 2
    p = tm.mul(zext(x.sig, pw), zext(y.sig, pw))
    top = bit(p, pw - 1)
    n = ite(top, p, concat(extract(pw - 2, 0, p), const(0, 1)))
    if n.w < FR + 1: n = concat(n, const(0, FR + 1 - n.w))
    ew = max(x.E, y.E, ER) + 3
    e = tm.add(tm.add(zext(x.exp, ew), zext(y.exp, ew)), zext(top, ew))
    e = tm.add(e, const(bias(ER) - bias(x.E) - bias(y.E), ew))
    r = round_pack(ER, FR, sign, n, e)
    r = sel(OR(x.zero, y.zero), special(ER, FR, ZERO, sign), r)
    r = sel(OR(x.inf, y.inf), special(ER, FR, INF, sign), r)
    isnan = OR(x.nan, y.nan, AND(x.zero, y.inf), AND(x.inf, y.zero))
    return sel(isnan, special(ER, FR, NAN, const(0, 1)), r)

def div(x, y, quot=None):
    """correctly rounded quotient, same format; quot: (floor of the significand quotient times 2^p as p+1 bits, p >= F+2; whether a remainder is left)"""
    E, F = x.E, x.F
    sign = tm.bxor(x.sign, y.sign)
    # q = (sx << (F+2)) / sy : F+2 or F+3 significant bits
    w = 2 * F + 3
    num = concat(x.sig, const(0, F + 2)); den = zext(y.sig, w)
    if quot: q, st = quot
    else: q = extract(F + 2, 0, tm.udiv(num, den)); st = tm.orr(tm.urem(num, den))
    lt = NOT(bit(q, q.w - 1))
    n = ite(lt, concat(extract(q.w - 2, 0, q), st, const(0, 1)), concat(q, st))
    ew = E + 3
    e = tm.sub(tm.sub(tm.add(zext(x.exp, ew), const(bias(E), ew)), zext(y.exp, ew)), zext(lt, ew))
    r = round_pack(E, F, sign, n, e)
    r = sel(OR(x.zero, y.inf), special(E, F, ZERO, sign), r)
    r = sel(OR(x.inf, y.zero), special(E, F, INF, sign), r)
    isnan = OR(x.nan, y.nan, AND(x.zero, y.zero), AND(x.inf, y.inf))
    return sel(isnan, special(E, F, NAN, const(0, 1)), r)

def convert(x, ER, FR):
    """correctly rounded conversion between formats"""
    ew = max(x.E, ER) + 3
    e = tm.add(zext(x.exp, ew), const(bias(ER) - bias(x.E), ew))
    sig = x.sig
    if sig.w < FR + 1: sig = concat(sig, const(0, FR + 1 - sig.w))
    r = round_pack(ER, FR, x.sign, sig, e)
    r = sel(x.zero, special(ER, FR, ZERO, x.sign), r)
    r = sel(x.inf, special(ER, FR, INF, x.sign), r)
    return sel(x.nan, special(ER, FR, NAN, x.sign), r)
