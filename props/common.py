import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))
import term as tm, oracle as O, fw
from term import const, concat, extract, ite, eq, ult, zext, sext, bit, AND, OR, NOT, IMP, TRUE, FALSE
from fw import Group

# the formats the repository's own parametric tests instantiate: E 4..12 x F 3..32
GRID = [(E, F) for E in range(4, 13) for F in range(3, 33)]
# a spread of it used on every change (small ones, powers of two boundaries, the usual machine formats, extremes)
SPREAD = [(4, 3), (4, 4), (5, 5), (4, 6), (6, 7), (5, 10), (8, 7), (7, 13), (4, 14), (4, 15), (6, 16), (9, 18), (5, 22), (8, 23),
          (10, 29), (4, 30), (7, 31), (12, 32), (12, 3), (11, 6)]

# every fraction width of the grid once, every exponent width several times, and the storage boundaries (32, 64 bits in all)
MEDIUM = SPREAD + [f for f in [(4 + (5 * F) % 9, F) for F in range(3, 33)] + [(5, 8), (6, 8), (4, 9), (5, 24), (6, 23), (7, 22), (8, 21), (9, 20), (12, 17), (11, 18), (12, 18),
          (4, 5), (5, 13), (9, 3), (12, 4), (11, 49), (11, 50), (11, 51), (8, 52), (8, 53), (12, 31), (12, 30), (8, 33), (8, 40), (9, 37), (10, 40), (12, 40), (8, 48), (11, 54), (11, 60)] if f not in SPREAD]

# for the operations whose queries are cheap: the whole grid, and every fraction width beyond it up to a 64-bit significand
WIDE = MEDIUM + [f for f in GRID + [(2 + F % 11, F) for F in range(33, 64)] + [(11, F) for F in range(33, 63)] if f not in MEDIUM]

def fmt_out(E, F, o): return O.flopoco(E, F, o)

def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]

def fp_ins(*fmts):
    names = ['x', 'y', 'z', 'u', 'v']
    return [(names[k], E + F + 3) for k, (E, F) in enumerate(fmts)]

def dec(i, n, E, F): return O.flopoco(E, F, i[n])

def result_witnesses(ref):
    """ref(i) -> oracle FP: every kind of outcome must be reachable"""
    def w(i):
        r = ref(i)
        return [('normal result', r.normal)]
    return w

def div_recur(fx, fy, E, F, xc=None):
    """for fw.Job(recur=...): quotient x / y (or xc / y for a constant numerator), finite nonzero operands"""
    def recur(nm):
        m = {}; free = {}
        for n, f in (('x', fx), ('y', fy)):
            if f is None: continue
            v = tm.var(nm[n] + '!', f[0] + f[1] + 1); free[n] = v; m[nm[n]] = concat(const(1, 2), v)
        y = O.widen(O.flopoco(fy[0], fy[1], m[nm['y']]), E, F)
        x = xc if fx is None else O.widen(O.flopoco(fx[0], fx[1], m[nm['x']]), E, F)
        sg = lambda v: concat(const(1, 1), extract(v.sig.w - 2, 0, v.sig))
        def bad(o, N, st): return NOT(O.same(O.flopoco(E, F, o), O.div(x, y, (N, st))))
        def rest(i):
            r = []
            for n, f in (('x', fx), ('y', fy)):
                if f is None: continue
                w = f[0] + f[1] + 3
                for k in (0, 2, 3):
                    d = {n: concat(const(k, 2), extract(w - 3, 0, i[n]))}
                    if n == 'y' and fx is not None: d['x'] = concat(const(1, 2), extract(fx[0] + fx[1], 0, i['x']))
                    r.append(('%s is %s' % (n, {0: 'zero', 2: 'infinite', 3: 'NaN'}[k]), d))
            return r
        return {'map': m, 'sx': sg(x), 'sy': sg(y), 'x': [v.a[0] for n, v in free.items() if n == 'x'], 'y': [free['y'].a[0]], 'bad': bad, 'rest': rest}
    return recur

def main(prop, build, **kw):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    a = ap.parse_args()
    groups = build(a.tier)
    if a.only:
        import re
        for g in groups: g.jobs = [j for j in g.jobs if re.search(a.only, j.entry)]
        groups = [g for g in groups if g.jobs]
    for k in kw:
        if callable(kw[k]): kw[k] = kw[k](a.tier)
    sys.exit(fw.run(prop, groups, a.tier, **kw))
