"""Floating-point instructions on IEEE binary terms (32/64 bit; generic in the
exponent and fraction width so that selfcheck.py can validate the circuits on
small formats).  Constants are folded with the host's arithmetic, everything
else becomes a bit-vector circuit, round to nearest even, with subnormals."""
import struct, math
import term as tm
from term import T, const, concat, extract, ite, eq, ult, zext, sext, bit, AND, OR, NOT
FMT = {16: (5, 10), 32: (8, 23), 64: (11, 52)}
def d2f(t):
    v = tm.cv(t)
    return struct.unpack('<d', struct.pack('<Q', v))[0] if t.w == 64 else struct.unpack('<f', struct.pack('<I', v))[0]
def f2t(x, w):
    if w == 64: return const(struct.unpack('<Q', struct.pack('<d', x))[0], 64)
    try: return const(struct.unpack('<I', struct.pack('<f', x))[0], 32)
    except OverflowError: return const(0x7f800000 | (0x80000000 if x < 0 else 0), 32)
class FPUnsupported(Exception): pass
def allc(xs): return all(isinstance(x, T) and tm.is_c(x) for x in xs)
def fmt(w):
    if w not in FMT: raise FPUnsupported('%d-bit floating point' % w)
    return FMT[w]

class U(object):
    """unpacked: class bits, sign, biased exponent of the leading bit (signed), normalised significand"""
    def __init__(self, x, E, F):
        import oracle as O
        self.E = E; self.F = F; self.sign = bit(x, E + F)
        ex = extract(E + F - 1, F, x); fr = extract(F - 1, 0, x)
        sub = eq(ex, const(0, E)); top = eq(ex, const(-1, E)); f0 = eq(fr, const(0, F))
        self.zero = AND(sub, f0); self.inf = AND(top, f0); self.nan = AND(top, NOT(f0))
        self.finite = NOT(top)
        n, lz = O.clz_norm(concat(NOT(sub), fr)); n = tm.box(n); lz = tm.box(lz)
        ew = max(E, lz.w) + 2
        self.ew = ew
        self.e = tm.box(tm.sub(ite(sub, const(1, ew), zext(ex, ew)), zext(lz, ew)))
        self.sig = n; self.mag = extract(E + F - 1, 0, x)

def pack(sign, mag): return concat(sign, mag)
def nan_(E, F): return const((((1 << E) - 1) << F) | (1 << (F - 1)), E + F + 1)
def inf_(sign, E, F): return concat(sign, const(-1, E), const(0, F))
def zero_(sign, E, F): return concat(sign, const(0, E + F))

def rnd(E, F, sign, sig, e):
    """sig normalised, any width, last bit may be sticky; e: signed biased exponent of its leading bit"""
    import oracle as O
    if sig.w < F + 3: sig = concat(sig, const(0, F + 3 - sig.w))
    ew = max(e.w, E + 1) + 2
    e = sext(e, ew)
    small = tm.slt(e, const(1, ew))
    d = tm.sub(const(1, ew), e)
    s2 = tm.box(O.shr_sticky(tm.box(sig), tm.box(d), 0))
    s = tm.box(ite(small, s2, sig)); e1 = ite(small, const(1, ew), e)
    k = s.w - (F + 1)
    topb = extract(s.w - 1, k, s)
    g = bit(s, k - 1); st = tm.orr(extract(k - 2, 0, s))
    up = AND(g, OR(st, bit(topb, 0)))
    w = ew + F + 1
    v = tm.add(tm.add(concat(tm.sub(e1, const(1, ew)), const(0, F + 1)) if False else zext(concat(tm.sub(e1, const(1, ew)), const(0, F)), w), zext(topb, w)), zext(up, w))
    ovf = NOT(ult(v, const(((1 << E) - 1) << F, w)))
    return concat(sign, ite(ovf, const(((1 << E) - 1) << F, E + F), extract(E + F - 1, 0, v)))

def s_add(x, y, E, F):
    import oracle as O
    lt = ult(extract(E + F - 1, 0, x), extract(E + F - 1, 0, y))
    a = U(ite(lt, y, x), E, F); b = U(ite(lt, x, y), E, F)
    d = tm.sub(a.e, b.e)                 # >= 0 for finite nonzero operands
    A = zext(concat(a.sig, const(0, 3)), F + 5)
    B = zext(tm.box(O.shr_sticky(b.sig, tm.box(d), 3)), F + 5)
    B = ite(b.zero, const(0, F + 5), B)
    dif = tm.bxor(a.sign, b.sign)
    s = ite(dif, tm.sub(A, B), tm.add(A, B))
    s = tm.box(s); n, lz = O.clz_norm(s); n = tm.box(n); lz = tm.box(lz)
    ew = max(a.ew, lz.w) + 2
    r = rnd(E, F, a.sign, n, tm.sub(tm.add(sext(a.e, ew), const(1, ew)), zext(lz, ew)))
    r = ite(eq(s, const(0, F + 5)), zero_(const(0, 1), E, F), r)
    r = ite(a.zero, zero_(AND(a.sign, b.sign), E, F), r)
    r = ite(OR(a.inf, b.inf), inf_(ite(a.inf, a.sign, b.sign), E, F), r)
    return ite(OR(a.nan, b.nan, AND(a.inf, b.inf, dif)), nan_(E, F), r)

def s_mul(x, y, E, F):
    a = U(x, E, F); b = U(y, E, F)
    sg = tm.bxor(a.sign, b.sign)
    p = tm.mul(zext(a.sig, 2 * F + 2), zext(b.sig, 2 * F + 2))
    top = bit(p, 2 * F + 1)
    n = ite(top, p, concat(extract(2 * F, 0, p), const(0, 1)))
    ew = max(a.ew, b.ew) + 2
    e = tm.add(tm.add(sext(a.e, ew), sext(b.e, ew)), tm.sub(zext(top, ew), const((1 << (E - 1)) - 1, ew)))
    r = rnd(E, F, sg, n, e)
    r = ite(OR(a.zero, b.zero), zero_(sg, E, F), r)
    r = ite(OR(a.inf, b.inf), inf_(sg, E, F), r)
    return ite(OR(a.nan, b.nan, AND(a.zero, b.inf), AND(a.inf, b.zero)), nan_(E, F), r)

def s_div(x, y, E, F):
    a = U(x, E, F); b = U(y, E, F)
    sg = tm.bxor(a.sign, b.sign)
    w = 2 * F + 4
    num = zext(concat(a.sig, const(0, F + 2)), w); den = zext(b.sig, w)
    q = extract(F + 2, 0, tm.udiv(num, den)); st = tm.orr(tm.urem(num, den))
    lt = NOT(bit(q, F + 2))
    n = ite(lt, concat(extract(F + 1, 0, q), st, const(0, 1)), concat(q, st))
    ew = max(a.ew, b.ew) + 2
    e = tm.sub(tm.add(tm.sub(sext(a.e, ew), sext(b.e, ew)), const((1 << (E - 1)) - 1, ew)), zext(lt, ew))
    r = rnd(E, F, sg, n, e)
    r = ite(OR(a.zero, b.inf), zero_(sg, E, F), r)
    r = ite(OR(a.inf, b.zero), inf_(sg, E, F), r)
    return ite(OR(a.nan, b.nan, AND(a.zero, b.zero), AND(a.inf, b.inf)), nan_(E, F), r)

def s_lt(x, y, E, F):
    a = U(x, E, F); b = U(y, E, F)
    both0 = AND(a.zero, b.zero)
    return AND(NOT(a.nan), NOT(b.nan), NOT(both0), ite(a.sign, ite(b.sign, ult(b.mag, a.mag), tm.TRUE), ite(b.sign, tm.FALSE, ult(a.mag, b.mag))))
def s_eq(x, y, E, F):
    a = U(x, E, F); b = U(y, E, F)
    return AND(NOT(a.nan), NOT(b.nan), OR(AND(a.zero, b.zero), eq(x, y)))
def s_un(x, y, E, F): return OR(U(x, E, F).nan, U(y, E, F).nan)

def s_from_uint(x, sign, E, F):
    import oracle as O
    n, lz = O.clz_norm(x)
    ew = max(E, lz.w) + 3
    e = tm.sub(const((1 << (E - 1)) - 1 + x.w - 1, ew), zext(lz, ew))
    return ite(eq(x, const(0, x.w)), zero_(const(0, 1), E, F), rnd(E, F, sign, n, e))

def s_to_int(x, w, E, F):
    """truncation; meaningless (zero) when out of range, like the poison value of the IR"""
    a = U(x, E, F)
    ew = max(a.ew, w.bit_length() + 2, 16) + 1
    d = tm.sub(sext(a.e, ew), const((1 << (E - 1)) - 1, ew))       # unbiased exponent
    W = w + F + 1
    v = concat(const(0, w), a.sig)                                 # value * 2^F at d = 0
    sh = tm.shl(v, zext(extract(ew - 2, 0, d), max(ew, 16)))
    r = extract(W - 1, F, sh)
    r = extract(w - 1, 0, r)
    r = ite(OR(bit(d, ew - 1), tm.sge(d, const(w, ew)), a.zero, a.inf, a.nan), const(0, w), r)
    return ite(a.sign, tm.neg(r), r)

def s_convert(x, E, F, E2, F2):
    a = U(x, E, F)
    ew = max(a.ew, E2 + 1) + 2
    e = tm.add(sext(a.e, ew), const(((1 << (E2 - 1)) - (1 << (E - 1))), ew))
    r = rnd(E2, F2, a.sign, a.sig, e)
    r = ite(a.zero, zero_(a.sign, E2, F2), r)
    r = ite(a.inf, inf_(a.sign, E2, F2), r)
    return ite(a.nan, nan_(E2, F2), r)

def s_ldexp(x, n, E, F):
    a = U(x, E, F)
    ew = 36
    r = rnd(E, F, a.sign, a.sig, tm.add(sext(a.e, ew), sext(n, ew)))
    return ite(OR(a.zero, a.inf, a.nan), x, r)

def s_frexp(x, E, F):
    """(fraction in [1/2,1), exponent)"""
    a = U(x, E, F)
    b = (1 << (E - 1)) - 1
    m = concat(a.sign, const(b - 1, E), extract(F - 1, 0, a.sig))
    special = OR(a.zero, a.inf, a.nan)
    ex = tm.sub(sext(a.e, 32), const(b - 1, 32))
    return ite(special, x, m), ite(special, const(0, 32), ex)

def from_int(x, signed, w):
    if tm.is_c(x): return f2t(float(tm.scv(x) if signed else tm.cv(x)), w)
    E, F = fmt(w)
    if not signed: return s_from_uint(x, const(0, 1), E, F)
    sg = bit(x, x.w - 1)
    return s_from_uint(ite(sg, tm.neg(x), x), sg, E, F)
def to_int(x, signed, w):
    if tm.is_c(x): return const(int(d2f(x)), w)
    return s_to_int(x, w, *fmt(x.w))
def convert(x, w):
    if tm.is_c(x): return f2t(d2f(x), w)
    return s_convert(x, *(fmt(x.w) + fmt(w)))
def op(o, xs, pred=None):
    if o == 'fneg':
        x = xs[0]
        return concat(NOT(bit(x, x.w - 1)), tm.trunc(x, x.w - 1))
    w = xs[0].w
    if not allc(xs):
        E, F = fmt(w)
        a, b = xs
        if o == 'fcmp':
            if pred == 'true': return tm.TRUE
            if pred == 'false': return tm.FALSE
            un = s_un(a, b, E, F)
            base = pred[1:]
            if pred == 'ord': return NOT(un)
            if pred == 'uno': return un
            r = {'eq': lambda: s_eq(a, b, E, F), 'ne': lambda: AND(NOT(un), NOT(s_eq(a, b, E, F))), 'lt': lambda: s_lt(a, b, E, F), 'gt': lambda: s_lt(b, a, E, F),
                 'le': lambda: OR(s_lt(a, b, E, F), s_eq(a, b, E, F)), 'ge': lambda: OR(s_lt(b, a, E, F), s_eq(a, b, E, F))}[base]()
            return OR(un, r) if pred[0] == 'u' else r
        if o == 'fadd': return tm.box(s_add(a, b, E, F))
        if o == 'fsub': return s_add(a, concat(NOT(bit(b, w - 1)), extract(w - 2, 0, b)), E, F)
        if o == 'fmul': return tm.box(s_mul(a, b, E, F))
        if o == 'fdiv': return s_div(a, b, E, F)
        raise FPUnsupported(o + ' symbolic')
    v = [d2f(x) for x in xs]
    if o == 'fcmp':
        a, b = v; un = a != a or b != b
        r = {'oeq': a == b, 'ogt': a > b, 'oge': a >= b, 'olt': a < b, 'ole': a <= b, 'one': a != b and not un, 'ord': not un}.get(pred)
        if r is None: r = {'ueq': un or a == b, 'ugt': un or a > b, 'uge': un or a >= b, 'ult': un or a < b, 'ule': un or a <= b, 'une': un or a != b, 'uno': un}[pred]
        return const(int(r), 1)
    a, b = v
    if o == 'fdiv':
        if b == 0: r = math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
        else: r = a / b
    else: r = {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b}[o]()
    return f2t(r, w)
def libm(n, a, eng, st):
    if n in ('ldexp', 'scalbn'):
        if allc(a): return f2t(math.ldexp(d2f(a[0]), tm.scv(a[1])), 64)
        return tm.box(s_ldexp(a[0], a[1], 11, 52))
    if n in ('ldexpf', 'scalbnf'): return s_ldexp(a[0], a[1], 8, 23)
    if n in ('frexp', 'frexpf'):
        m, e = s_frexp(a[0], *fmt(a[0].w))
        import llir
        eng.store(st, a[1], llir.INT(32), e)
        return m
    if n in ('round', 'floor', 'ceil', 'sqrt', 'fabs', 'log2', 'exp2', 'trunc'):
        if n == 'fabs': return concat(const(0, 1), tm.trunc(a[0], a[0].w - 1))
        if allc(a):
            x = d2f(a[0])
            if n == 'round': r = math.copysign(math.floor(abs(x) + 0.5), x) if abs(x) < 2**52 else x
            else: r = {'floor': lambda: float(math.floor(x)), 'ceil': lambda: float(math.ceil(x)), 'sqrt': lambda: math.sqrt(x), 'log2': lambda: math.log2(x), 'exp2': lambda: 2.0**x, 'trunc': lambda: float(math.trunc(x))}[n]()
            return f2t(r, 64)
        raise FPUnsupported(n + ' symbolic')
    return None
def intrinsic(n, a):
    base = n.split('.')[0]
    if base == 'fabs':
        x = a[0]; return concat(const(0, 1), tm.trunc(x, x.w - 1))
    if base == 'fmuladd' and allc(a):
        return f2t(d2f(a[0]) * d2f(a[1]) + d2f(a[2]), a[0].w)
    if base == 'copysign': return concat(bit(a[1], a[1].w - 1), tm.trunc(a[0], a[0].w - 1))
    if n.startswith('is.fpclass'):
        u = U(a[0], *fmt(a[0].w)); m = tm.cv(a[1]); x = a[0]; E, F = fmt(x.w)
        ex = extract(E + F - 1, F, x); sub = AND(eq(ex, const(0, E)), NOT(u.zero)); nrm = AND(NOT(eq(ex, const(0, E))), u.finite)
        q = bit(x, F - 1); p = NOT(u.sign); n_ = u.sign
        tests = [AND(u.nan, NOT(q)), AND(u.nan, q), AND(u.inf, n_), AND(nrm, n_), AND(sub, n_), AND(u.zero, n_), AND(u.zero, p), AND(sub, p), AND(nrm, p), AND(u.inf, p)]
        return OR(*([t for k, t in enumerate(tests) if m >> k & 1] or [tm.FALSE]))
    if base in ('ldexp', 'round', 'floor', 'ceil', 'sqrt', 'trunc'):
        return libm(base, a, None, None)
    return None
