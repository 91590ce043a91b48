#!/usr/bin/env python3-vt
"""Validates the machinery itself: the reference circuits (oracle.py) and the
floating-point instruction circuits (fpterm.py) are proved equal, by z3, to
SMT-LIB FloatingPoint on small formats, and the bit-blaster is cross-checked
against z3 on random terms.  Not part of the registered checks."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import z3, term as tm, oracle as O, fpterm as FPT, solve
from term import const, concat, extract, ite, eq, AND, OR, NOT

def to_z3(roots, env):
    v = {}
    B = lambda c: z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    for t in tm.topo(roots):
        a = [v[c.id] if isinstance(c, tm.T) else c for c in t.a]
        op = t.op
        if op == 'const': r = z3.BitVecVal(t.a[0], t.w)
        elif op == 'var': r = env[t.a[0]]
        elif op == 'concat': r = z3.Concat(*a) if len(a) > 1 else a[0]
        elif op == 'ext': r = z3.Extract(a[1], a[2], a[0])
        elif op == 'box': r = a[0]
        elif op == 'and': r = a[0] & a[1]
        elif op == 'or': r = a[0] | a[1]
        elif op == 'xor': r = a[0] ^ a[1]
        elif op == 'not': r = ~a[0]
        elif op == 'ite': r = z3.If(a[0] == 1, a[1], a[2])
        elif op == 'add': r = a[0] + a[1]
        elif op == 'sub': r = a[0] - a[1]
        elif op == 'mul': r = a[0] * a[1]
        elif op == 'udiv': r = z3.UDiv(a[0], a[1])
        elif op == 'urem': r = z3.URem(a[0], a[1])
        elif op == 'eq': r = B(a[0] == a[1])
        elif op == 'ult': r = B(z3.ULT(a[0], a[1]))
        v[t.id] = r
    return [v[r.id] for r in roots]

def prove(name, claim, to=300):
    s = z3.SolverFor('QF_FPBV'); s.set('timeout', to * 1000)
    s.add(z3.Not(claim)); 
    r = s.check()
    print('%-60s %s' % (name, 'proved' if r == z3.unsat else str(r).upper()))
    if r == z3.unknown: print('   ', s.reason_unknown())
    if r == z3.sat: print('   ', s.model()); return False
    return r == z3.unsat

def ieee(E, F):
    ok = True
    S = z3.FPSort(E, F + 1); W = E + F + 1; rm = z3.RNE()
    x = tm.var('x', W); y = tm.var('y', W); zx = z3.BitVec('x', W); zy = z3.BitVec('y', W)
    fx = z3.fpBVToFP(zx, S); fy = z3.fpBVToFP(zy, S)
    env = {'x': zx, 'y': zy}
    def cmpf(n, t, f, T=None):
        T = S if T is None else T
        z = to_z3([t], env)[0]; g = z3.fpBVToFP(z, T)
        return prove('fp(%d,%d) %s' % (E, F, n), z3.Or(z3.And(z3.fpIsNaN(g), z3.fpIsNaN(f)), g == f))
    def cmpb(n, t, b):
        z = to_z3([t], env)[0]
        return prove('fp(%d,%d) %s' % (E, F, n), (z == 1) == b)
    ok &= cmpf('add', FPT.s_add(x, y, E, F), z3.fpAdd(rm, fx, fy))
    ok &= cmpf('mul', FPT.s_mul(x, y, E, F), z3.fpMul(rm, fx, fy))
    ok &= cmpf('div', FPT.s_div(x, y, E, F), z3.fpDiv(rm, fx, fy))
    ok &= cmpb('lt', FPT.s_lt(x, y, E, F), z3.fpLT(fx, fy))
    ok &= cmpb('eq', FPT.s_eq(x, y, E, F), z3.fpEQ(fx, fy))
    for E2, F2 in ((E + 1, F + 2), (E - 1, F - 1), (E, F + 1), (E + 1, F - 1)):
        ok &= cmpf('convert->(%d,%d)' % (E2, F2), FPT.s_convert(x, E, F, E2, F2), z3.fpFPToFP(rm, fx, z3.FPSort(E2, F2 + 1)), z3.FPSort(E2, F2 + 1))
    i = tm.var('i', 7); zi = z3.BitVec('i', 7); env['i'] = zi
    ok &= cmpf('from unsigned', FPT.s_from_uint(i, const(0, 1), E, F), z3.fpUnsignedToFP(rm, zi, S))
    sg = tm.bit(i, 6)
    ok &= cmpf('from signed', FPT.s_from_uint(ite(sg, tm.neg(i), i), sg, E, F), z3.fpSignedToFP(rm, zi, S))
    z = to_z3([FPT.s_to_int(x, 8, E, F)], env)[0]
    inr = z3.And(z3.fpLT(fx, z3.FPVal(100, S)), z3.fpGT(fx, z3.FPVal(-100, S)))
    ok &= prove('fp(%d,%d) to signed' % (E, F), z3.Implies(inr, z == z3.fpToSBV(z3.RTZ(), fx, z3.BitVecSort(8))))
    return ok

def flop(E, F):
    """oracle on flopoco formats against FloatingPoint with one more exponent bit (no subnormals in range)"""
    ok = True
    W = E + F + 3
    T = z3.FPSort(E + 3, F + 1); WIDE = z3.FPSort(E + 4, 2 * F + 6)
    zx, zy = z3.BitVec('x', W), z3.BitVec('y', W); env = {'x': zx, 'y': zy}
    x = O.flopoco(E, F, tm.var('x', W)); y = O.flopoco(E, F, tm.var('y', W))
    rm = z3.RNE()
    def val(z, E, F, S):
        fl = z3.Extract(E + F + 2, E + F + 1, z); s = z3.Extract(E + F, E + F, z)
        E2 = E + 3
        e = z3.ZeroExt(3, z3.Extract(E + F - 1, F, z)) + ((1 << (E2 - 1)) - (1 << (E - 1)))
        n = z3.fpFP(s, e, z3.Extract(F - 1, 0, z))
        n = z3.If(fl == 0, z3.If(s == 1, z3.fpMinusZero(z3.FPSort(E2, F + 1)), z3.fpPlusZero(z3.FPSort(E2, F + 1))),
              z3.If(fl == 2, z3.If(s == 1, z3.fpMinusInfinity(z3.FPSort(E2, F + 1)), z3.fpPlusInfinity(z3.FPSort(E2, F + 1))), z3.If(fl == 3, z3.fpNaN(z3.FPSort(E2, F + 1)), n)))
        return n
    def flush(f, E, F, S):
        """saturate a wide-exponent value to the flopoco range"""
        lo = z3.FPVal(2.0 ** (-((1 << (E - 1)) - 1)), S); hi = z3.FPVal(2.0 ** ((1 << (E - 1)) + 1), S)
        neg = z3.fpIsNegative(f)
        return z3.If(z3.fpIsNaN(f), f, z3.If(z3.fpLT(z3.fpAbs(f), lo), z3.If(neg, z3.fpMinusZero(S), z3.fpPlusZero(S)),
              z3.If(z3.fpGEQ(z3.fpAbs(f), hi), z3.If(neg, z3.fpMinusInfinity(S), z3.fpPlusInfinity(S)), f)))
    vx, vy = val(zx, E, F, T), val(zy, E, F, T)
    def chk(n, r, f, ER=E, FR=F):
        z = to_z3([r.bits], env)[0]
        g = val(z, ER, FR, None); S = z3.FPSort(ER + 3, FR + 1)
        f = flush(f, ER, FR, S)
        return prove('flopoco(%d,%d) %s' % (E, F, n), z3.Or(z3.And(z3.fpIsNaN(g), z3.fpIsNaN(f)), g == f))
    ok &= chk('add', O.add(x, y), z3.fpAdd(rm, vx, vy))
    ok &= chk('mul', O.mul(x, y, E, F), z3.fpMul(rm, vx, vy))
    ok &= chk('div', O.div(x, y), z3.fpDiv(rm, vx, vy))
    for ER, FR in ((E, F - 1), (E, F - 2), (E - 1, F - 1), (E - 1, F + 1), (E + 1, F - 1)):
        S = z3.FPSort(ER + 3, FR + 1)
        # exponent range of S always covers that of the source here
        ok &= chk('convert->(%d,%d)' % (ER, FR), O.convert(x, ER, FR), z3.fpFPToFP(rm, vx, S), ER, FR)
    return ok

def blaster(n=150):
    r = random.Random(5); bad = 0
    for k in range(n):
        w = r.choice([1, 3, 5, 8]); vs = [tm.var('v%d' % i, w) for i in range(3)]; pool = list(vs) + [const(r.getrandbits(w), w)]
        for _ in range(12):
            a, b = r.choice(pool), r.choice(pool); o = r.randrange(12)
            pool.append([lambda: tm.add(a, b), lambda: tm.sub(a, b), lambda: tm.mul(a, b), lambda: tm.band(a, b), lambda: tm.bxor(a, b), lambda: NOT(a), lambda: tm.ite(tm.ult(a, b), a, b),
                         lambda: tm.shl(a, b), lambda: tm.lshr(a, b), lambda: tm.udiv(a, b), lambda: tm.urem(a, b), lambda: tm.ite(eq(a, b), b, NOT(a))][o]())
        goal = eq(pool[-1], const(r.getrandbits(w), w))
        v, m, _ = solve.check(goal, [], timeout=30)
        env = {'v%d' % i: z3.BitVec('v%d' % i, w) for i in range(3)}
        s = z3.Solver(); s.add(to_z3([goal], env)[0] == 1)
        zr = str(s.check())
        if v != zr or (v == 'sat' and not tm.evaluate([goal], m)[0]): bad += 1
    print('bit-blaster against z3 on %d random terms: %d disagreements' % (n, bad))
    return bad == 0

if __name__ == '__main__':
    ok = blaster()
    for f in ((3, 3), (4, 3)): ok &= ieee(*f)
    for f in ((3, 5), (4, 6)): ok &= flop(*f)
    print('SELFCHECK', 'OK' if ok else 'FAILED'); sys.exit(0 if ok else 1)
