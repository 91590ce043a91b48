"""Decision back end: terms -> AIG/XOR/MAJ/MUX gates -> CNF -> SAT solver.

check(bad, assume, timeout) asks whether some assignment of the variables makes
every assumption 1 and `bad` 1.  Answers: 'unsat', 'sat' (with model) or
'unknown' (time limit); nothing else is ever reported as success.
"""
import os, subprocess, tempfile, time, shutil, signal
import term as tm
from term import T

def _find(names, globs=()):
    import glob
    for n in names:
        p = shutil.which(n)
        if p: return p
    for g in globs:
        l = sorted(glob.glob(g))
        for p in l:
            if os.access(p, os.X_OK): return p
    return None
KISSAT = _find(['kissat'], ['/root/.kani/*/bin/kissat', '/root/.kani/*/kissat'])
CADICAL = _find(['cadical'], ['/app/*lean*/build/release/stage1/bin/cadical', '/app/toolchains/*lean*/bin/cadical', '/opt/*/bin/cadical'])
MINISAT = _find(['minisat'])
Z3 = _find(['z3-new', 'z3'])

stats = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'trivial': 0, 'solver_s': 0.0, 'clauses': 0, 'vars': 0}

class Blaster(object):
    def __init__(self):
        self.nv = 1            # literal 1/-1 = true/false (variable 1 is forced true)
        self.cl = [(1,)]
        self.h = {}
        self.bits = {}         # term id -> list of literals LSB first
        self.vars = {}         # var name -> literals
        self.keep = []
    def new(self):
        self.nv += 1; return self.nv
    def AND(self, a, b):
        if a == -1 or b == -1 or a == -b: return -1
        if a == 1: return b
        if b == 1 or a == b: return a
        if a > b: a, b = b, a
        k = (0, a, b)
        r = self.h.get(k)
        if r is None:
            r = self.new(); self.h[k] = r
            self.cl += [(-r, a), (-r, b), (r, -a, -b)]
        return r
    def OR(self, a, b): return -self.AND(-a, -b)
    def XOR(self, a, b):
        if a == -1: return b
        if b == -1: return a
        if a == 1: return -b
        if b == 1: return -a
        if a == b: return -1
        if a == -b: return 1
        s = 1
        if a < 0: a = -a; s = -s
        if b < 0: b = -b; s = -s
        if a > b: a, b = b, a
        k = (1, a, b)
        r = self.h.get(k)
        if r is None:
            r = self.new(); self.h[k] = r
            self.cl += [(-r, a, b), (-r, -a, -b), (r, -a, b), (r, a, -b)]
        return s * r
    def MUX(self, c, a, b):
        if c == 1: return a
        if c == -1: return b
        if a == b: return a
        if c < 0: c, a, b = -c, b, a
        if a == 1: return self.OR(c, b)
        if a == -1: return self.AND(-c, b)
        if b == 1: return self.OR(-c, a)
        if b == -1: return self.AND(c, a)
        if a == -b: return -self.XOR(c, a)
        if a == c: return self.OR(c, b)
        if a == -c: return self.AND(-c, b)
        if b == c: return self.AND(c, a)
        if b == -c: return self.OR(-c, a)
        s = 1
        if a < 0: a, b, s = -a, -b, -1
        k = (2, c, a, b)
        r = self.h.get(k)
        if r is None:
            r = self.new(); self.h[k] = r
            self.cl += [(-c, -a, r), (-c, a, -r), (c, -b, r), (c, b, -r), (-a, -b, r), (a, b, -r)]
        return s * r
    def MAJ(self, a, b, c):
        a, b, c = sorted((a, b, c))
        if a == -b: return c
        if b == -c: return a
        if a == -c: return b
        if a == b or b == c: return b
        for (p, q, r) in ((a, b, c), (b, a, c), (c, a, b)):
            if p == 1: return self.OR(q, r)
            if p == -1: return self.AND(q, r)
        k = (3, a, b, c)
        r = self.h.get(k)
        if r is None:
            r = self.new(); self.h[k] = r
            self.h[(3,) + tuple(sorted((-a, -b, -c)))] = -r
            self.cl += [(-a, -b, r), (-a, -c, r), (-b, -c, r), (a, b, -r), (a, c, -r), (b, c, -r)]
        return r
    def ADD(self, x, y, c=-1):
        out = []
        for a, b in zip(x, y):
            out.append(self.XOR(self.XOR(a, b), c))
            c = self.MAJ(a, b, c)
        return out, c
    def MUL(self, x, y):
        w = len(x)
        n1 = sum(1 for b in x if b != -1); n2 = sum(1 for b in y if b != -1)
        if (n1, x) < (n2, y): x, y = y, x
        acc = [-1] * w
        for i, yb in enumerate(y):
            if yb == -1: continue
            pp = [self.AND(xb, yb) for xb in x[:w - i]]
            s, _ = self.ADD(acc[i:], pp)
            acc = acc[:i] + s
        return acc
    def ULT(self, x, y):
        # borrow chain of x - y
        c = -1
        for a, b in zip(x, y): c = self.MAJ(-a, b, c)
        return c
    def blast(self, root):
        for t in tm.topo([root]):
            if t.id in self.bits: continue
            a = t.a; op = t.op; B = self.bits
            if op == 'const': r = [1 if (a[0] >> i) & 1 else -1 for i in range(t.w)]
            elif op == 'var':
                r = self.vars.get(a[0])
                if r is None:
                    r = [self.new() for _ in range(t.w)]; self.vars[a[0]] = r
            elif op == 'concat':
                r = []
                for p in reversed(a): r = r + B[p.id]
            elif op == 'box': r = B[a[0].id]
            elif op == 'ext': r = B[a[0].id][a[2]:a[1] + 1]
            elif op == 'and': r = [self.AND(p, q) for p, q in zip(B[a[0].id], B[a[1].id])]
            elif op == 'or': r = [self.OR(p, q) for p, q in zip(B[a[0].id], B[a[1].id])]
            elif op == 'xor': r = [self.XOR(p, q) for p, q in zip(B[a[0].id], B[a[1].id])]
            elif op == 'not': r = [-p for p in B[a[0].id]]
            elif op == 'ite':
                c = B[a[0].id][0]
                r = [self.MUX(c, p, q) for p, q in zip(B[a[1].id], B[a[2].id])]
            elif op == 'add': r, _ = self.ADD(B[a[0].id], B[a[1].id])
            elif op == 'sub': r, _ = self.ADD(B[a[0].id], [-p for p in B[a[1].id]], 1)
            elif op == 'mul': r = self.MUL(B[a[0].id], B[a[1].id])
            elif op in ('udiv', 'urem'):
                q, rem = self.DIV(B[a[0].id], B[a[1].id])
                r = q if op == 'udiv' else rem
            elif op == 'eq':
                r = 1
                for p, q in zip(B[a[0].id], B[a[1].id]): r = self.AND(r, -self.XOR(p, q))
                r = [r]
            elif op == 'ult': r = [self.ULT(B[a[0].id], B[a[1].id])]
            else: raise Exception('blast ' + op)
            self.bits[t.id] = r
            self.keep.append(t)
        return self.bits[root.id]
    def DIV(self, x, y):
        key = (4, tuple(x), tuple(y))
        if key in self.h: return self.h[key]
        w = len(x)
        rem = [-1] * w; q = [-1] * w
        for i in reversed(range(w)):
            top = rem[-1]
            rem = [x[i]] + rem[:-1]
            ge = self.OR(top, -self.ULT(rem, y))
            d, _ = self.ADD(rem, [-b for b in y], 1)
            rem = [self.MUX(ge, p, r) for p, r in zip(d, rem)]
            q[i] = ge
        # y==0: quotient all ones (naturally), remainder = x (naturally)
        self.h[key] = (q, rem)
        return q, rem

def to_cnf(roots):
    b = Blaster()
    for r in roots:
        l = b.blast(r)[0]
        b.cl.append((l,))
    # cone of influence is exact: only gates reachable from roots were created,
    # apart from unused adder carries, which are harmless definitions.
    return b

def write_cnf(b, f):
    f.write('p cnf %d %d\n' % (b.nv, len(b.cl)))
    f.write('\n'.join([' '.join(map(str, c)) + ' 0' for c in b.cl]))
    f.write('\n')

def tmpdir():
    return os.environ.get('VP_SCRATCH') or tempfile.gettempdir()

def solver_cmd(which, path, timeout):
    t = max(1, int(timeout))
    if which == 'kissat': return [KISSAT, '-q', '--time=%d' % t, path]
    if which == 'kissat-sat': return [KISSAT, '-q', '--sat', '--time=%d' % t, path]
    if which == 'kissat-unsat': return [KISSAT, '-q', '--unsat', '--time=%d' % t, path]
    if which == 'cadical': return [CADICAL, '-q', '-t', str(t), path]
    raise Exception(which)

def check(bad, assume=(), timeout=60, which=None, keep=None):
    """returns (verdict, model or None, seconds)"""
    stats['queries'] += 1
    roots = []
    for x in list(assume) + [bad]:
        if x is tm.FALSE:
            stats['unsat'] += 1; stats['trivial'] += 1
            return 'unsat', None, 0.0
        if x is not tm.TRUE: roots.append(x)
    t0 = time.time()
    if not roots:
        stats['sat'] += 1
        return 'sat', {}, 0.0
    b = to_cnf(roots)
    stats['clauses'] += len(b.cl); stats['vars'] += b.nv
    which = which or default_solver()
    fd, path = tempfile.mkstemp(suffix='.cnf', dir=tmpdir())
    try:
        with os.fdopen(fd, 'w') as f: write_cnf(b, f)
        if keep: shutil.copy(path, keep)
        verdict, model = _run(which, path, timeout, b)
    finally:
        os.unlink(path)
    dt = time.time() - t0
    stats['solver_s'] += dt
    stats[verdict] += 1
    return verdict, model, dt

def default_solver():
    if KISSAT: return 'kissat'
    if CADICAL: return 'cadical'
    raise Exception('no SAT solver found')

def _run(which, path, timeout, b):
    cmd = solver_cmd(which, path, timeout)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=_limit)
    try:
        out, _ = p.communicate(timeout=timeout + 10)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate()
        return 'unknown', None
    rc = p.returncode
    if rc == 20: return 'unsat', None
    if rc == 10:
        tv = set()
        for line in out.decode().split('\n'):
            if line.startswith('v'):
                for x in line[1:].split():
                    v = int(x)
                    if v > 0: tv.add(v)
        model = {}
        for n, lits in b.vars.items():
            v = 0
            for i, l in enumerate(lits):
                if (l in tv) if l > 0 else (-l not in tv): v |= 1 << i
            model[n] = v
        return 'sat', model
    return 'unknown', None

def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        import ctypes
        ctypes.CDLL('libc.so.6').prctl(1, signal.SIGKILL)
    except Exception: pass
