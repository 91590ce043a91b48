"""Division by digit recurrence, decided for wide operands by induction over the code's own partial remainders.

The terms of the code that hold a partial remainder (a value congruent to X*2^j modulo Y, of magnitude below Y) are
found by simulation.  Each such term R_k is then replaced by a variable, and the solver decides, for every value of
it with -Y < R_k < Y and every divisor significand Y:
   R_{k+1} = 2^d * R_k - T(key) * Y   and   -Y < R_{k+1} < Y        (one query per step)
where the digit T(key) is a table over those operand bits the rest of the code looks at.  Summing the steps up gives
X*2^j = Q*Y + R with Q = sum of digits, so the exact quotient and whether a remainder is left are known as functions
of the keys and the sign / zero test of the last R; the last query compares the code's result, as a function of those
variables, with the oracle's rounding of that quotient.  Everything is sound on its own: nothing found by simulation
is assumed, and a failed step only means that this way of proving does not apply."""
import random, time
import term as tm, solve, oracle as O
from term import const, concat, extract, AND, OR, NOT, ite, eq, zext, sext

def sgn(v, m): v &= (1 << m) - 1; return v - (1 << m) if v >> (m - 1) else v

class Fail(Exception): pass

def candidates(order, S, vals, F):
    pw = []
    for X, Y in S:
        d = {}
        for j in range(0, 3 * F + 16): d.setdefault((X << j) % Y, set()).add(j)
        pw.append(d)
    best = {}
    for k, t in enumerate(order):
        if t.w < F + 1 or t.op not in ('add', 'sub', 'ite', 'ext'): continue
        top = None
        for m in range(min(t.w, F + 8), F, -1):
            c = None
            for n, (X, Y) in enumerate(S):
                v = sgn(vals[n][k], m)
                if abs(v) > Y: c = None; break
                s = pw[n].get(v % Y, ())
                c = set(s) if c is None else c & set(s)
                if not c: break
            if c: top = (m, min(c)); break
        if top and top[1] not in best: best[top[1]] = (t, top[0])
    return best

def prove(bad_of, out_term, sx, sy, xv, yv, deadline, log):
    """out_term: the result; sx, sy: significands (terms over variables xv, yv; F+1 bits each, leading bit one)
    bad_of(result term, N, sticky): disagreement with the oracle; returns True when proved, raises Fail otherwise"""
    F1 = sx.w; F = F1 - 1
    rnd = random.Random(5)
    names = [v.a[0] for v in tm.variables([out_term, sx, sy])]
    ws = {v.a[0]: v.w for v in tm.variables([out_term, sx, sy])}
    order = tm.topo([out_term])
    def draw():
        e = {}
        for n in names:
            w = ws[n]
            r = rnd.random()
            e[n] = rnd.getrandbits(w) if r < .8 else rnd.getrandbits(w) & ~((1 << rnd.randrange(w)) - 1) if r < .9 else (rnd.getrandbits(w) | ((1 << rnd.randrange(w)) - 1))
        return e
    envs = [draw() for _ in range(60)]
    vals = [tm.evaluate(order, e) for e in envs]
    S = [tuple(tm.evaluate([sx, sy], e)) for e in envs]
    best = candidates(order, S, vals, F)
    js = sorted(j for j in best if j > 0)
    js = [j for j in js if best[j][0].op in ('add', 'sub', 'ite')] or js
    if len(js) < 2: raise Fail('no partial remainders found')
    log.append(('remainder scalings', js))
    # ------------------------------------------------ cut
    W = lambda t: 'rem!%d' % t
    m = {}; V = []; nxt = []
    for k, j in enumerate(js):
        t, mm = best[j]
        nxt.append(tm.substitute([t], m)[0])
        v = tm.var(W(k), t.w); V.append((v, mm)); m[t.id] = v
    final = tm.substitute([out_term], m)[0]
    fv = set(v.a[0] for v in tm.variables([final]))
    xn = [v.a[0] for v in tm.variables([sx])]; 
    # ------------------------------------------------ keys: the bits the final term looks at
    def used(name, root, w):
        s = set()
        for t in tm.topo([root]):
            for c in t.a:
                if isinstance(c, tm.T) and c.op == 'var' and c.a[0] == name:
                    if t.op == 'ext': s |= set(range(t.a[2], t.a[1] + 1))
                    else: s |= set(range(w))
        return sorted(s)
    n = len(js)
    # which bits of the operands the digit selection reads
    keys = []
    opb = []
    for nm in set(xn + [v.a[0] for v in tm.variables([sy])]):
        # exponent and sign bits do not matter for the significand path
        opb.append(nm)
    sigbits = {}
    for s_ in (sx, sy):
        for t in tm.topo([s_]):
            if t.op == 'ext' and t.a[0].op == 'var': sigbits.setdefault(t.a[0].a[0], set()).update(range(t.a[2], t.a[1] + 1))
            for c in t.a:
                if isinstance(c, tm.T) and c.op == 'var' and t.op != 'ext': sigbits.setdefault(c.a[0], set()).update(range(c.w))
    def keybits(k):
        kb = []
        for nm in [v.a[0] for v in tm.variables([sy])]:
            kb += [(nm, b) for b in used(nm, final, ws[nm]) if b in sigbits.get(nm, ())]
        if k == 0:
            for nm in xn:
                if not (nm in [v.a[0] for v in tm.variables([sy])]): kb += [(nm, b) for b in used(nm, final, ws[nm]) if b in sigbits.get(nm, ())]
        else: kb += [(W(k - 1), b) for b in used(W(k - 1), final, V[k - 1][0].w)]
        return kb
    varof = {nm: tm.var(nm, ws[nm]) for nm in names}
    for v, mm in V: varof[v.a[0]] = v
    Yt = sy
    def key_val(kb, env): return tuple((env.get(nm, 0) >> b) & 1 for nm, b in kb)
    wide = F1 + 8
    Ys = zext(Yt, wide)
    def rem(k):  # signed value of remainder k (k = -1: the dividend)
        if k < 0: return zext(sx, wide)
        v, mm = V[k]
        return sext(extract(mm - 1, 0, v), wide) if mm < wide else extract(wide - 1, 0, v)
    def inv(r, y=Ys): return AND(tm.sle(tm.neg(y), r), tm.sle(r, y))
    # initial tables from simulation
    pos = {t.id: q for q, t in enumerate(order)}
    tabs = []; shared = {}
    for k in range(n):
        kb = keybits(k)
        if len(kb) > 12: raise Fail('digit depends on too many bits (%d) at step %d' % (len(kb), k))
        d = js[k] - (js[k - 1] if k else 0)
        tab = shared.setdefault((d, tuple(('R' if k and nm == W(k - 1) else nm, b) for nm, b in kb)), {})   # one table for steps that select alike
        tabs.append((kb, d, tab))
    def harvest(e, vv, X, Y):
        env = dict(e)
        R = X
        for k in range(n):
            t, mm = best[js[k]]
            env[W(k)] = vv[pos[t.id]]
            kb, d, tab = tabs[k]
            R2 = sgn(env[W(k)], mm)
            num = (R << d) - R2
            if num % Y: raise Fail('not a recurrence')
            q = num // Y; kk = key_val(kb, env)
            if abs(q) > (1 << d) + 1: raise Fail('digit out of range')
            if tab.setdefault(kk, q) != q: raise Fail('digit is not a function of the selection bits')
            R = R2
    for e, vv, (X, Y) in zip(envs, vals, S): harvest(e, vv, X, Y)
    total = 0.0; nq = 0
    def digit(k):
        kb, d, tab = tabs[k]
        vals_ = sorted(set(tab.values()))
        bits = [extract(b, b, varof[nm]) for nm, b in kb]
        kt = concat(*bits) if bits else const(0, 1)
        sels = {}
        for kk, q in tab.items():
            c = 0
            for b in kk: c = c * 2 + b
            sels.setdefault(q, []).append(c)
        return kt, sels
    decided = {}
    changed = True
    while changed:          # a table that grew is checked again for the earlier steps that share it
        changed = False
        for k in range(n):
            v, mm = V[k]
            if tabs[k][1] > 4: raise Fail('scaling jumps by %d bits' % tabs[k][1])
            rest = set(x.a[0] for x in tm.variables([nxt[k]]))
            allowed = set(yv) | ({W(k - 1)} if k else set(xn))
            if not rest <= allowed: raise Fail('remainder %d depends on %s' % (k, sorted(rest - allowed)))
            for it in range(200):
                kb, d, tab = tabs[k]
                kt, sels = digit(k)
                r0 = rem(k - 1)
                r1 = sext(extract(mm - 1, 0, nxt[k]), wide) if mm < wide else extract(wide - 1, 0, nxt[k])
                lin = tm.shl(r0, const(d, wide))
                prod = const(0, wide)
                for q, cs in sels.items():
                    if q: prod = ite(OR(*[eq(kt, const(c, kt.w)) for c in cs]), tm.mul(Ys, const(q, wide)), prod)
                good = AND(eq(r1, tm.sub(lin, prod)), inv(r1))
                left = deadline - time.time()
                if left < 3: raise Fail('budget')
                q = [NOT(good)] + ([] if k == 0 else [inv(r0)])
                if k:      # steps that are the same formula up to the name of the remainder are decided once
                    v = V[k - 1][0]; q = tm.substitute(q, {v.a[0]: tm.var('rem!', v.w)})
                ck = tuple(t.id for t in q)
                if ck in decided: break
                vd, mo, dt = solve.check(q[0], q[1:], timeout=min(left, 60))
                total += dt; nq += 1
                if k and mo: mo[W(k - 1)] = mo.get('rem!', 0)
                if vd == 'unsat': decided[ck] = q
                if vd == 'unsat': break
                if vd != 'sat': raise Fail('step %d not decided' % k)
                env = {nm: mo.get(nm, 0) for nm in varof}
                R, R2, Y = tm.evaluate([r0, r1, Ys], env)
                R, R2 = sgn(R, wide), sgn(R2, wide)
                num = (R << d) - R2; kk = key_val(kb, env)
                if num % Y or abs(num // Y) > (1 << d) + 1 or abs(R2) > Y or kk in tab: raise Fail('step %d is not a recurrence step: R=%d Y=%d R2=%d' % (k, R, Y, R2))
                tab[kk] = num // Y; changed = True
            else: raise Fail('digit table does not converge')
    log.append(('recurrence steps', nq, round(total, 2)))
    # ------------------------------------------------ quotient
    p = js[-1]
    if p < F + 2: raise Fail('too few quotient bits')
    qw = p + 4
    P = const(0, qw); M = const(0, qw)
    for k in range(n):
        kt, sels = digit(k); sh = p - js[k]
        mx = max(abs(q) for q in sels)
        wd = max(1, mx.bit_length())
        pp = const(0, wd); mmn = const(0, wd)
        for q, cs in sels.items():
            c = OR(*[eq(kt, const(c, kt.w)) for c in cs])
            if q > 0: pp = ite(c, const(q, wd), pp)
            elif q < 0: mmn = ite(c, const(-q, wd), mmn)
        P = tm.add(P, tm.shl(zext(pp, qw), const(sh, qw))); M = tm.add(M, tm.shl(zext(mmn, qw), const(sh, qw)))
    rl = rem(n - 1)
    negl = extract(wide - 1, wide - 1, rl); isy = eq(rl, Ys)
    st = NOT(OR(eq(rl, const(0, wide)), isy, eq(rl, tm.neg(Ys))))
    N = tm.add(tm.sub(tm.sub(P, M), zext(negl, qw)), zext(isy, qw))
    top = extract(p, p, N)
    exact_short = OR(st, ite(top, eq(extract(p - F - 1, 0, N), const(0, p - F)), eq(extract(p - F - 2, 0, N), const(0, p - F - 1))))
    lo = const(1 << (p - 1), qw); hi = const(1 << (p + 1), qw)
    ass = [exact_short, tm.ule(lo, N), tm.ult(N, hi)] + [inv(rem(k)) for k in range(n)]
    left = deadline - time.time()
    if left < 3: raise Fail('budget')
    vd, mo, dt = solve.check(bad_of(final, extract(p, 0, N), st), ass, timeout=min(left, 300))
    log.append(('result from the digits', vd, round(dt, 2)))
    if vd != 'unsat': raise Fail('final query: ' + vd)
    return nq + 1, total + dt
