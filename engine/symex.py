"""Symbolic executor for LLVM IR with path merging.

All paths through a function are executed together: at every join the states
are merged with if-then-else, loops are unrolled dynamically until their exit
condition folds to a constant (or the given bound is hit, which is an error,
never a silent truncation).  Reaching an abort (failed assert, throw, sanitizer
trap, division by zero, out-of-bounds access) records an obligation with its
path condition.
"""
import heapq, struct, math, re
import term as tm
from term import T, const, concat, extract, ite, eq, ult, band, bor, bnot, zext, sext
import llir
from llir import size, offs

class Unsupported(Exception): pass
class BoundHit(Exception): pass

class Ptr(object):
    """guarded set of (object id, offset).  object 0 is null/absolute"""
    __slots__ = ('alts',)
    def __init__(self, alts): self.alts = alts   # list of (cond T, obj, off T64)
class Fn(object):
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
class Undef(object): pass
UNDEF = Undef()

TRUE = tm.TRUE; FALSE = tm.FALSE
def c64(v): return const(v, 64)
def mkptr(obj, off=0):
    return Ptr([(TRUE, obj, off if isinstance(off, T) else c64(off))])
NULL = mkptr(0, 0)

def merge_ptr(c, p, q):
    if p is q: return p
    alts = []
    d = {}
    for (g, o, f) in p.alts:
        gg = band(c, g)
        if gg is FALSE: continue
        d.setdefault(o, []).append((gg, f))
    nc = bnot(c)
    for (g, o, f) in q.alts:
        gg = band(nc, g)
        if gg is FALSE: continue
        d.setdefault(o, []).append((gg, f))
    for o, l in d.items():
        g, f = l[0]
        for (g2, f2) in l[1:]:
            f = ite(g2, f2, f); g = bor(g, g2)
        alts.append((g, o, f))
    if len(alts) == 1: alts = [(TRUE, alts[0][1], alts[0][2])]
    return Ptr(alts)

def merge(c, x, y):
    if x is y: return x
    if x is UNDEF: return y
    if y is UNDEF: return x
    if isinstance(x, T) and isinstance(y, T): return ite(c, x, y)
    if isinstance(x, Ptr) and isinstance(y, Ptr): return merge_ptr(c, x, y)
    if isinstance(x, tuple) and isinstance(y, tuple): return tuple(merge(c, a, b) for a, b in zip(x, y))
    if isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name: return x
    if isinstance(x, list) and isinstance(y, list):
        if len(x) == len(y) and all(a[0] == b[0] for a, b in zip(x, y)): pass
    raise Unsupported('merge %r %r' % (x, y))

class Obj(object):
    """byte-granular memory object; bytes[i] is T8, ('p', Ptr/Fn, k) or None (uninitialised)"""
    __slots__ = ('n', 'b', 'name', 'ro', 'owner')
    def __init__(self, n, name, b=None, ro=False, owner=None):
        self.n = n; self.name = name; self.b = b if b is not None else [None] * n; self.ro = ro; self.owner = owner

class State(object):
    __slots__ = ('conds', 'env', 'mem')
    def __init__(self, conds, env, mem):
        self.conds = conds; self.env = env; self.mem = mem
    def guard(self):
        g = TRUE
        for c in self.conds: g = band(g, c)
        return g

class CFG(object):
    """loop-nest-aware topological numbering and liveness"""
    def __init__(self, f):
        self.f = f
        self.succ = {}
        alias = getattr(f, 'entry_alias', None)
        for b in f.order:
            t = f.blocks[b].term
            if t is None: raise Unsupported('no terminator in %s %s' % (f.name, b))
            if t.op == 'br': s = [t.x]
            elif t.op == 'condbr': s = list(t.x)
            elif t.op == 'switch': s = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke': s = [t.x[1]]
            else: s = []
            self.succ[b] = s
        self.path = {}     # block -> tuple of (pos) with loop entries
        self.loops = {}    # block -> tuple of loop headers containing it (outermost first)
        reach = set(); st = [f.entry]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st.extend(self.succ[b])
        self._order([b for b in f.order if b in reach], f.entry, (), (), set())
        self._live()
    def _order(self, nodes, entry, prefix, loops, cut):
        ns = set(nodes)
        succ = {b: [s for s in self.succ[b] if s in ns and (b, s) not in cut] for b in nodes}
        sccs = tarjan(nodes, succ, entry)
        # tarjan yields reverse topological order
        pos = 0
        for scc in reversed(sccs):
            if len(scc) == 1 and scc[0] not in succ[scc[0]]:
                self.path[scc[0]] = prefix + (pos,)
                self.loops[scc[0]] = loops
            else:
                ss = set(scc)
                if entry in ss: hs = [entry]
                else:
                    hs = []
                    for b in nodes:
                        if b not in ss:
                            for s in succ[b]:
                                if s in ss and s not in hs: hs.append(s)
                if len(hs) != 1: raise Unsupported('irreducible loop in ' + self.f.name)
                h = hs[0]
                cut2 = set(cut)
                for b in scc:
                    if h in self.succ[b]: cut2.add((b, h))
                order = [b for b in nodes if b in ss]
                self._order(order, h, prefix + (pos,), loops + (h,), cut2)
            pos += 1
    def _live(self):
        f = self.f
        use = {}; deff = {}; phiuse = {}
        def vs(v, acc):
            if v is None: return
            if v[0] == 'v': acc.add(v[1])
            elif v[0] == 'agg':
                for (t, x) in v[1]: vs(x, acc)
        for b in self.path:
            u = set(); d = set()
            blk = f.blocks[b]
            for p in blk.phis:
                d.add(p.dst)
                for (pb, v) in p.x:
                    s = set(); vs(v, s)
                    phiuse.setdefault((pb, b), set()).update(s)
            for ins in blk.insts + [blk.term]:
                s = set()
                ops = ins.a
                for o in ops:
                    if ins.op in ('getelementptr', 'call', 'invoke'): vs(o[1], s)
                    else: vs(o, s)
                if ins.op == 'call': vs(ins.x, s)
                if ins.op == 'invoke': vs(ins.x[0], s)
                u |= (s - d)
                if ins.dst: d.add(ins.dst)
            use[b] = u; deff[b] = d
        alias = getattr(f, 'entry_alias', None)
        livein = {b: set() for b in self.path}
        ch = True
        while ch:
            ch = False
            for b in self.path:
                lo = set()
                for s in self.succ[b]:
                    lo |= livein[s]
                    lo |= phiuse.get((b, s), set())
                    if b == f.entry and alias: lo |= phiuse.get((alias, s), set())
                n = use[b] | (lo - deff[b])
                if n != livein[b]: livein[b] = n; ch = True
        self.livein = livein

def tarjan(nodes, succ, entry):
    idx = {}; low = {}; onst = set(); st = []; out = []; cnt = [0]
    order = [entry] + [n for n in nodes if n != entry]
    for root in order:
        if root in idx: continue
        work = [(root, iter(succ[root]))]
        idx[root] = low[root] = cnt[0]; cnt[0] += 1; st.append(root); onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); onst.add(w)
                    work.append((w, iter(succ[w]))); adv = True; break
                elif w in onst: low[v] = min(low[v], idx[w])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                scc = []
                while True:
                    w = st.pop(); onst.discard(w); scc.append(w)
                    if w == v: break
                out.append(scc)
    return out

ABORTS = {'@abort', '@exit', '@_ZSt9terminatev', '@__cxa_throw', '@__cxa_rethrow', '@_exit',
          '@_ZSt17__throw_bad_allocv', '@_ZSt20__throw_length_errorPKc', '@_ZSt19__throw_logic_errorPKc', '@_ZSt25__throw_bad_function_callv'}
IGNORE_RE = re.compile(r'^@(llvm\.(lifetime|dbg|assume|invariant|experimental\.noalias|stacksave|stackrestore)|_ZNSt8ios_base4InitC1|_ZNSt8ios_base4InitD1|__cxa_atexit|__cxa_guard_release|__cxa_free_exception)')
OSTREAM_RE = re.compile(r'^@(_ZNSo|_ZStls|_ZNSt.*ostream|_ZSt16__ostream_insert|_ZNKSt.*ios|_ZNSt9basic_ios|fprintf|mpfr_fprintf|fwrite|fputs|fputc|_ZNKSt5ctype|_ZSt4endl)')

class Engine(object):
    def __init__(self, mod, max_iter=5000, feasible=None):
        self.m = mod
        self.cfgs = {}
        self.obl = []          # list of (guard T, kind, text)
        self.funcs_run = {}    # name -> times
        self.max_iter = max_iter
        self.feasible = feasible
        self.nobj = 1
        self.gobj = {}
        self.undefs = 0
        self.stubs = set()
        self.steps = 0
        self.blocks = 0
        self.stack = []
        self.base_mem = {}
        self.fpext = None
        self.assume = TRUE
        self.mul_hook = None
        self.bin_hook = None

    # ------------------------------------------------------------ objects
    def newobj(self, mem, n, name, b=None, ro=False):
        i = self.nobj; self.nobj += 1
        mem[i] = Obj(n, name, b, ro)
        return i
    def fresh(self, w, why='undef'):
        self.undefs += 1
        return tm.var('%s!%d' % (why, self.undefs), w)
    def global_ptr(self, name, mem):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs or name in self.m.decls: return Fn(name)
        if name in self.gobj:
            return mkptr(self.gobj[name], 0)
        t, init, isc = self.m.globals[name]
        n = size(t)
        o = self.nobj; self.nobj += 1
        self.gobj[name] = o
        ob = Obj(n, name, [None] * n, isc)
        self.base_mem[o] = ob
        if init is not None:
            self._init(ob.b, 0, t, init, self.base_mem)
        return mkptr(o, 0)
    def _init(self, b, off, t, v, mem):
        if v[0] == 'zero':
            for i in range(size(t)): b[off + i] = const(0, 8)
        elif v[0] == 'undef': pass
        elif v[0] == 'str':
            for i, x in enumerate(v[1]): b[off + i] = const(x, 8)
        elif v[0] == 'agg':
            if t.k == 'array':
                s = size(t.el)
                for i, (et, ev) in enumerate(v[1]): self._init(b, off + i * s, et, ev, mem)
            elif t.k == 'struct':
                for i, (et, ev) in enumerate(v[1]): self._init(b, off + offs(t)[i], et, ev, mem)
            elif t.k == 'vec':
                raise Unsupported('vector init')
        else:
            x = self.val(v, t, None, mem)
            self._putbytes(b, off, t, x)

    def mem_get(self, mem, o):
        ob = mem.get(o)
        if ob is None:
            ob = self.base_mem.get(o)
        return ob
    def mem_w(self, mem, o, token):
        """writable copy"""
        ob = mem.get(o)
        if ob is None:
            ob = self.base_mem[o]
            ob = Obj(ob.n, ob.name, list(ob.b), ob.ro, token); mem[o] = ob
        elif ob.owner is not token:
            ob = Obj(ob.n, ob.name, list(ob.b), ob.ro, token); mem[o] = ob
        return ob

    # ------------------------------------------------------------ values
    def val(self, v, ty, env, mem):
        k = v[0]
        if k == 'v':
            return env[v[1]]
        if k == 'c':
            if ty.k == 'ptr': return mkptr(0, v[1])
            return const(v[1], ty.w)
        if k == 'fp': return const(v[1], ty.w)
        if k == 'g': return self.global_ptr(v[1], mem)
        if k == 'null': return NULL
        if k == 'undef':
            if ty.k in ('int', 'double', 'float'): return self.fresh(ty.w)
            if ty.k == 'struct': return tuple(self.val(v, e, env, mem) for e in ty.els)
            if ty.k == 'array': return tuple(self.val(v, ty.el, env, mem) for _ in range(ty.n))
            if ty.k == 'ptr': return NULL
            raise Unsupported('undef ' + ty.k)
        if k == 'zero':
            if ty.k in ('int', 'double', 'float'): return const(0, ty.w)
            if ty.k == 'struct': return tuple(self.val(v, e, env, mem) for e in ty.els)
            if ty.k == 'array': return tuple(self.val(v, ty.el, env, mem) for _ in range(ty.n))
            if ty.k == 'ptr': return NULL
            raise Unsupported('zero ' + ty.k)
        if k == 'agg':
            return tuple(self.val(x, t, env, mem) for t, x in v[1])
        if k == 'ce':
            if v[1] == 'gep':
                return self.gep(v[2], [(t, self.val(x, t, env, mem)) for t, x in v[3]])
            if v[1] == 'cast':
                x = self.val(v[4], v[3], env, mem)
                return self.cast(v[2], x, v[3], v[5])
        raise Unsupported('val %r' % (v,))

    def gep(self, st, ops):
        base = ops[0][1]
        if isinstance(base, Fn): raise Unsupported('gep on function')
        off = c64(0)
        t = st
        first = True
        for (ity, idx) in ops[1:]:
            if first:
                s = size(t); first = False
                off = tm.add(off, tm.mul(self.idx64(idx), c64(s)))
            elif t.k == 'struct':
                i = tm.cv(idx)
                off = tm.add(off, c64(offs(t)[i])); t = t.els[i]
            elif t.k in ('array', 'vec'):
                off = tm.add(off, tm.mul(self.idx64(idx), c64(size(t.el)))); t = t.el
            else: raise Unsupported('gep into ' + t.k)
        return Ptr([(g, o, tm.add(f, off)) for g, o, f in base.alts])
    def idx64(self, i):
        return i if i.w == 64 else (sext(i, 64) if i.w < 64 else tm.trunc(i, 64))

    def cast(self, op, x, ft, tt):
        if op == 'zext': return zext(x, tt.w)
        if op == 'sext': return sext(x, tt.w)
        if op == 'trunc': return tm.trunc(x, tt.w)
        if op in ('bitcast', 'addrspacecast'):
            if isinstance(x, T) and tt.k != 'ptr' and ft.k != 'vec' and tt.k != 'vec': return x
            if ft.k == 'ptr' and tt.k == 'ptr': return x
            raise Unsupported('bitcast')
        if op == 'ptrtoint':
            if isinstance(x, Fn): raise Unsupported('ptrtoint fn')
            r = None
            for g, o, f in x.alts:
                b = tm.add(c64(o << 40), f)
                r = b if r is None else ite(g, b, r)
            return tm.zx(r, tt.w)
        if op == 'inttoptr':
            if tm.is_c(x):
                v = tm.cv(x); return mkptr(v >> 40, v & ((1 << 40) - 1))
            raise Unsupported('inttoptr')
        import fpterm
        if op == 'uitofp': return fpterm.from_int(x, False, tt.w)
        if op == 'sitofp': return fpterm.from_int(x, True, tt.w)
        if op in ('fptoui', 'fptosi'): return fpterm.to_int(x, op == 'fptosi', tt.w)
        if op == 'fpext': return fpterm.convert(x, tt.w)
        if op == 'fptrunc': return fpterm.convert(x, tt.w)
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------ memory
    def _putbytes(self, b, off, t, x):
        n = size(t)
        if isinstance(x, tuple):
            if t.k == 'array':
                s = size(t.el)
                for i, e in enumerate(x): self._putbytes(b, off + i * s, t.el, e)
            else:
                for i, e in enumerate(x): self._putbytes(b, off + offs(t)[i], t.els[i], e)
            return
        if isinstance(x, (Ptr, Fn)):
            for i in range(8): b[off + i] = ('p', x, i)
            return
        nb = (x.w + 7) // 8
        xx = zext(x, nb * 8) if nb * 8 != x.w else x
        for i in range(nb): b[off + i] = extract(8 * i + 7, 8 * i, xx)
        for i in range(nb, n): b[off + i] = const(0, 8)
    def _getbytes(self, b, off, t, undef=None):
        if t.k == 'struct':
            return tuple(self._getbytes(b, off + offs(t)[i], e) for i, e in enumerate(t.els))
        if t.k == 'array':
            s = size(t.el)
            return tuple(self._getbytes(b, off + i * s, t.el) for i in range(t.n))
        n = (t.w + 7) // 8
        first = b[off]
        if t.k == 'ptr':
            if isinstance(first, tuple):
                p = first[1]
                for i in range(8):
                    z = b[off + i]
                    if not (isinstance(z, tuple) and z[1] is p and z[2] == i): raise Unsupported('torn pointer')
                return p
            if first is None: return NULL
            v = concat(*[b[off + i] for i in reversed(range(8))])
            return self.cast('inttoptr', v, llir.INT(64), llir.PTR)
        parts = []
        for i in reversed(range(n)):
            z = b[off + i]
            if z is None:
                z = self.fresh(8, 'uninit')
                b[off + i] = z
            elif isinstance(z, tuple):
                if t.k == 'int' and t.w == 64 and first[0] == 'p':
                    return self.cast('ptrtoint', first[1], llir.PTR, t)
                raise Unsupported('pointer bytes read as int')
            parts.append(z)
        r = concat(*parts)
        return tm.trunc(r, t.w) if r.w != t.w else r

    def offsets(self, ob, f, n, g):
        """candidate concrete offsets for symbolic f with their conditions; plus in-bounds condition"""
        if tm.is_c(f):
            v = tm.cv(f)
            if v + n <= ob.n: return [(TRUE, v)], TRUE
            return [], FALSE
        # stride from known low bits
        stride = 1 << min(tm._tz_known(f) if hasattr(tm, '_tz_known') else self.known_low(f), 6)
        lowv = f.ko & (stride - 1)
        res = []
        mx = min(tm.umax(f), ob.n - n); mn = max(0, tm.umin(f))
        v = mn - ((mn - lowv) % stride)
        if v < mn: v += stride
        inb = FALSE
        base, coef, sh = None, None, None
        while v <= mx:
            c = eq(f, c64(v))
            if c is not FALSE: res.append((c, v))
            v += stride
        if len(res) > 70000: raise Unsupported('symbolic offset range')
        inb = tm.ule(f, c64(ob.n - n))
        if stride > 1 and False: pass
        return res, inb
    def known_low(self, f):
        k = f.kz | f.ko
        n = 0
        while n < 64 and (k >> n) & 1: n += 1
        return n

    def load(self, st, p, t):
        if isinstance(p, Fn): raise Unsupported('load from function')
        n = size(t)
        res = None
        for g, o, f in p.alts:
            ob = self.mem_get(st.mem, o) if o else None
            if ob is None:
                self.oblige(st, g, 'memory', 'load through null/invalid pointer'); continue
            cands, inb = self.offsets(ob, f, n, g)
            if inb is not TRUE:
                self.oblige(st, band(g, bnot(inb)), 'memory', 'out-of-bounds load from ' + ob.name)
            vals = [(c, self._getbytes(ob.b, v, t)) for c, v in cands]
            r = self.tree(f, cands, vals)
            if r is None: continue
            res = r if res is None else merge(g, r, res)
        if res is None:
            raise Dead()
        return res
    def tree(self, f, cands, vals):
        if not vals: return None
        if len(vals) == 1: return vals[0][1]
        if len(vals) > 8 and all(isinstance(v, T) for _, v in vals):
            # mux tree on the bits of the offset
            d = {}
            for (c, v), (cc, x) in zip(cands, vals): d[v] = x
            return self._bitmux(f, d)
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]): r = merge(c, v, r)
        return r
    def _bitmux(self, f, d):
        offs_ = sorted(d)
        x = 0
        for v in offs_: x |= v ^ offs_[0]
        if x == 0: return d[offs_[0]]
        b = x.bit_length() - 1
        hi = {v: d[v] for v in offs_ if (v >> b) & 1}
        lo = {v: d[v] for v in offs_ if not (v >> b) & 1}
        return ite(tm.bit(f, b), self._bitmux(f, hi), self._bitmux(f, lo))

    def store(self, st, p, t, x):
        if isinstance(p, Fn): raise Unsupported('store to function')
        n = size(t)
        single = len(p.alts) == 1
        for g, o, f in p.alts:
            ob = self.mem_get(st.mem, o) if o else None
            if ob is None:
                self.oblige(st, g, 'memory', 'store through null/invalid pointer'); continue
            cands, inb = self.offsets(ob, f, n, g)
            if inb is not TRUE:
                self.oblige(st, band(g, bnot(inb)), 'memory', 'out-of-bounds store to ' + ob.name)
            ob = self.mem_w(st.mem, o, st)
            for c, v in cands:
                cc = c if single else band(g, c)
                if cc is TRUE:
                    self._putbytes(ob.b, v, t, x)
                else:
                    try: old = self._getbytes(list(ob.b), v, t)
                    except Unsupported: old = UNDEF
                    self._putbytes(ob.b, v, t, merge(cc, x, old))

    def memcpy(self, st, d, s, n):
        if n == 0: return
        if len(d.alts) != 1: raise Unsupported('memcpy to multi pointer')
        _, do, df = d.alts[0]
        if not tm.is_c(df): raise Unsupported('memcpy sym offset')
        do_ob = self.mem_get(st.mem, do); dv = tm.cv(df)
        bs = None
        for g, so, sf in s.alts:
            so_ob = self.mem_get(st.mem, so)
            if so_ob is None: self.oblige(st, g, 'memory', 'memcpy from invalid'); continue
            if not tm.is_c(sf):
                cands, inb = self.offsets(so_ob, sf, n, g)
                if inb is not TRUE: self.oblige(st, band(g, bnot(inb)), 'memory', 'memcpy out of bounds')
                b2 = None
                for c, v in cands:
                    x = so_ob.b[v:v + n]
                    b2 = x if b2 is None else [self.mbyte(c, p, q) for p, q in zip(x, b2)]
            else:
                sv = tm.cv(sf)
                if sv + n > so_ob.n: self.oblige(st, g, 'memory', 'memcpy out of bounds'); continue
                b2 = so_ob.b[sv:sv + n]
            if b2 is None: continue
            bs = b2 if bs is None else [self.mbyte(g, x, y) for x, y in zip(b2, bs)]
        if bs is None: raise Dead()
        if do_ob is None or dv + n > do_ob.n: self.oblige(st, TRUE, 'memory', 'memcpy dst out of bounds'); raise Dead()
        ob = self.mem_w(st.mem, do, st)
        ob.b[dv:dv + n] = bs
    def mbyte(self, c, x, y):
        if x is y: return x
        if x is None: return y
        if y is None: return x
        if isinstance(x, T) and isinstance(y, T): return ite(c, x, y)
        if isinstance(x, tuple) and isinstance(y, tuple) and x[2] == y[2]:
            if x[1] is y[1]: return x
            key = (c.id, id(x[1]), id(y[1]))
            cache = self._pm
            if key not in cache: cache[key] = (merge(c, x[1], y[1]), x[1], y[1])
            return ('p', cache[key][0], x[2])
        raise Unsupported('merge bytes')
    _pm = {}

    def merge_mem(self, c, m1, m2):
        if m1 is m2: return m1
        res = {}
        for o in set(m1) | set(m2):
            a = m1.get(o); b = m2.get(o)
            if a is b: res[o] = a; continue
            if a is None: a = self.base_mem.get(o)
            if b is None: b = self.base_mem.get(o)
            if a is None: res[o] = b; continue
            if b is None: res[o] = a; continue
            if a is b: res[o] = a; continue
            nb = [x if x is y else self.mbyte(c, x, y) for x, y in zip(a.b, b.b)]
            res[o] = Obj(a.n, a.name, nb, a.ro)
        return res

    # ------------------------------------------------------------ obligations
    def oblige(self, st, g, kind, text):
        gg = band(st.guard(), g)
        if gg is FALSE: return
        self.obl.append((gg, kind, text + ' [' + (self.stack[-1] if self.stack else '') + ']'))

    def cstr(self, p, st):
        try:
            g, o, f = p.alts[0]
            b = self.mem_get(st.mem, o).b; i = tm.cv(f); s = bytearray()
            while tm.cv(b[i]): s.append(tm.cv(b[i])); i += 1
            return s.decode('latin1')
        except Exception: return '?'

    # ------------------------------------------------------------ running
    def cfg(self, f):
        c = self.cfgs.get(f.name)
        if c is None: c = self.cfgs[f.name] = CFG(f)
        return c

    def call(self, name, args, st):
        """returns (value or None); st is updated in place. raises Dead if no path returns"""
        f = self.m.func(name)
        if f is None: return self.external(name, args, st)
        if len(self.stack) > 200: raise BoundHit('recursion depth')
        self.funcs_run[f.name] = self.funcs_run.get(f.name, 0) + 1
        self.stack.append(f.name)
        try:
            return self._run(f, args, st)
        finally:
            self.stack.pop()

    def _run(self, f, args, st0):
        cfg = self.cfg(f)
        env = {}
        for (t, nm), a in zip(f.params, args): env[nm] = a
        n0 = len(st0.conds)
        heap = []; pend = {}; seq = [0]
        def push(b, iters, state):
            # key: interleave positions and iteration counts
            path = cfg.path[b]; key = []
            for i, p in enumerate(path):
                key.append(p)
                if i < len(iters): key.append(iters[i])
            key = tuple(key)
            if key in pend:
                b2, it2, s2 = pend[key]
                assert b2 == b
                pend[key] = (b, iters, self.merge_states(s2, state, cfg.livein[b] | set(p.dst for p in f.blocks[b].phis)))
            else:
                pend[key] = (b, iters, state); heapq.heappush(heap, key)
        rets = []
        push(f.entry, (0,) * len(cfg.loops[f.entry]), State(st0.conds, env, st0.mem))
        alias = getattr(f, 'entry_alias', None)
        while heap:
            key = heapq.heappop(heap)
            b, iters, st = pend.pop(key)
            self.blocks += 1
            blk = f.blocks[b]
            st = State(st.conds, st.env, dict(st.mem))
            try:
                for ins in blk.insts: self.step(ins, st)
            except Dead:
                continue
            t = blk.term
            outs = []
            if t.op == 'br': outs = [(t.x, None)]
            elif t.op == 'condbr':
                c = self.val(t.a[0], llir.INT(1), st.env, st.mem)
                c = self.simp_guard(st, c)
                outs = [(t.x[0], c), (t.x[1], bnot(c))]
            elif t.op == 'switch':
                v = self.val(t.a[0], t.ty, st.env, st.mem)
                tot = FALSE; by = {}
                for cvv, lab in t.x[1]:
                    c = eq(v, const(cvv, t.ty.w))
                    by[lab] = bor(by.get(lab, FALSE), c); tot = bor(tot, c)
                by[t.x[0]] = bor(by.get(t.x[0], FALSE), bnot(tot))
                outs = list(by.items())
            elif t.op == 'ret':
                v = self.val(t.a[0], t.ty, st.env, st.mem) if t.a else None
                rets.append((st, v)); continue
            elif t.op == 'invoke':
                try:
                    self.do_call(Inst_call(t), st)
                except Dead: continue
                outs = [(t.x[1], None)]
            elif t.op == 'unreachable':
                self.oblige(st, TRUE, 'unreachable', 'unreachable executed'); continue
            else: raise Unsupported(t.op)
            live = [(lab, c) for lab, c in outs if c is not FALSE]
            for lab, c in live:
                conds = st.conds if (c is None or c is TRUE) else st.conds + (c,)
                # iterations
                lu = cfg.loops[b]; lv = cfg.loops[lab]
                ni = []
                for i, h in enumerate(lv):
                    if i < len(lu) and lu[i] == h and len(ni) == i:
                        if h == lab: # back edge
                            ni.append(iters[i] + 1)
                            if iters[i] + 1 > self.max_iter: raise BoundHit('loop bound in %s' % f.name)
                        else: ni.append(iters[i])
                    else: ni.append(0)
                if c is not None and c is not TRUE and any(h == lab for h in lv) and self.feasible is not None and ni and ni[-1] > 0 and ni[-1] % 4 == 0:
                    g = TRUE
                    for cc in conds: g = band(g, cc)
                    if not self.feasible(band(g, self.assume)): continue
                tb = f.blocks[lab]
                env = st.env
                need = cfg.livein[lab]
                ne = {k: env[k] for k in need if k in env}
                if tb.phis:
                    for ph in tb.phis:
                        for (pb, v) in ph.x:
                            if pb == b or (b == f.entry and pb == alias):
                                ne[ph.dst] = self.val(v, ph.ty, env, st.mem); break
                        else: raise Unsupported('phi')
                push(lab, tuple(ni), State(conds, ne, st.mem))
        if not rets: raise Dead()
        st, v = rets[0]
        for s2, v2 in rets[1:]:
            c, conds = self.join(st.conds, s2.conds)
            nv = merge(c, v, v2) if v is not None else None
            st = State(conds, {}, self.merge_mem(c, st.mem, s2.mem)); v = nv
        st0.conds = st.conds
        if st.mem is not st0.mem:
            st0.mem.clear(); st0.mem.update(st.mem)
            for o in list(st0.mem):
                pass
        return v

    def simp_guard(self, st, c):
        if tm.is_c(c): return c
        for x in st.conds:
            if x is c: return TRUE
            if x.op == 'not' and x.a[0] is c: return FALSE
            if c.op == 'not' and c.a[0] is x: return FALSE
        return c

    def join(self, a, b):
        """conds tuples; returns (selector choosing a, merged conds)"""
        i = 0
        while i < len(a) and i < len(b) and a[i] is b[i]: i += 1
        pre = a[:i]
        ra = TRUE
        for x in a[i:]: ra = band(ra, x)
        rb = TRUE
        for x in b[i:]: rb = band(rb, x)
        o = bor(ra, rb)
        sel = ra
        if i < len(a) and i < len(b) and (a[i] is bnot(b[i])): sel = a[i]
        elif ra is TRUE: sel = bnot(rb)
        return sel, (pre if o is TRUE else pre + (o,))

    def merge_states(self, s1, s2, live):
        sel, conds = self.join(s1.conds, s2.conds)
        env = {}
        for k in live:
            a = s1.env.get(k, UNDEF); b = s2.env.get(k, UNDEF)
            if a is UNDEF and b is UNDEF: continue
            env[k] = merge(sel, a, b)
        return State(conds, env, self.merge_mem(sel, s1.mem, s2.mem))

    def step(self, ins, st):
        self.steps += 1
        op = ins.op; env = st.env
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            x = self.val(ins.a[0], ins.ty, env, st.mem); y = self.val(ins.a[1], ins.ty, env, st.mem)
            # an oversized shift in the IR is only poison: oversized shifts of the source are traps
            # (-fsanitize=shift), what is left are shifts the optimiser executes speculatively
            # and whose result a select then discards
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                self.oblige(st, eq(y, const(0, y.w)), 'ub', 'division by zero')
            f = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'and': band, 'or': bor, 'xor': tm.bxor, 'shl': tm.shl,
                 'lshr': tm.lshr, 'ashr': tm.ashr, 'udiv': tm.udiv, 'sdiv': tm.sdiv, 'urem': tm.urem, 'srem': tm.srem}[op]
            if self.bin_hook is not None:
                r = self.bin_hook(op, x, y)
                if r is not None:
                    env[ins.dst] = r; return
            env[ins.dst] = f(x, y)
        elif op == 'icmp':
            x = self.val(ins.a[0], ins.ty, env, st.mem); y = self.val(ins.a[1], ins.ty, env, st.mem)
            if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)):
                env[ins.dst] = self.ptrcmp(ins.x, x, y); return
            f = {'eq': eq, 'ne': tm.ne, 'ult': ult, 'ule': tm.ule, 'ugt': tm.ugt, 'uge': tm.uge,
                 'slt': tm.slt, 'sle': tm.sle, 'sgt': tm.sgt, 'sge': tm.sge}[ins.x]
            env[ins.dst] = f(x, y)
        elif op == 'select':
            c = self.val(ins.a[0], llir.INT(1), env, st.mem)
            x = self.val(ins.a[1], ins.ty, env, st.mem); y = self.val(ins.a[2], ins.ty, env, st.mem)
            if c is TRUE: env[ins.dst] = x
            elif c is FALSE: env[ins.dst] = y
            else: env[ins.dst] = merge(c, x, y)
        elif op in llir.CAST:
            x = self.val(ins.a[0], ins.x, env, st.mem)
            env[ins.dst] = self.cast(op, x, ins.x, ins.ty)
        elif op == 'load':
            env[ins.dst] = self.load(st, self.val(ins.a[0], llir.PTR, env, st.mem), ins.ty)
        elif op == 'store':
            self.store(st, self.val(ins.a[1], llir.PTR, env, st.mem), ins.ty, self.val(ins.a[0], ins.ty, env, st.mem))
        elif op == 'alloca':
            n = size(ins.ty) * tm.cv(self.val(ins.a[0], llir.INT(64), env, st.mem))
            o = self.newobj(st.mem, n, ins.dst)
            env[ins.dst] = mkptr(o, 0)
        elif op == 'getelementptr':
            env[ins.dst] = self.gep(ins.ty, [(t, self.val(v, t, env, st.mem)) for t, v in ins.a])
        elif op == 'call':
            self.do_call(ins, st)
        elif op == 'extractvalue':
            v = self.val(ins.a[0], ins.ty, env, st.mem)
            for i in ins.x: v = v[i]
            env[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(ins.a[0], ins.ty, env, st.mem); idx, t2 = ins.x
            x = self.val(ins.a[1], t2, env, st.mem)
            def put(v, idx):
                l = list(v)
                l[idx[0]] = x if len(idx) == 1 else put(l[idx[0]], idx[1:])
                return tuple(l)
            env[ins.dst] = put(v, idx)
        elif op == 'freeze':
            env[ins.dst] = self.val(ins.a[0], ins.ty, env, st.mem)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'frem'):
            import fpterm
            xs = [self.val(a, ins.ty, env, st.mem) for a in ins.a]
            env[ins.dst] = fpterm.op(op, xs, ins.x)
        else:
            raise Unsupported('inst ' + op)

    def ptrcmp(self, pred, x, y):
        if isinstance(x, Fn) or isinstance(y, Fn):
            same = isinstance(x, Fn) and isinstance(y, Fn) and x.name == y.name
            return TRUE if same == (pred == 'eq') else FALSE
        if pred in ('eq', 'ne'):
            r = FALSE
            for g, o, f in x.alts:
                for g2, o2, f2 in y.alts:
                    if o == o2: r = bor(r, tm.AND(g, g2, eq(f, f2)))
            return r if pred == 'eq' else bnot(r)
        a = self.cast('ptrtoint', x, llir.PTR, llir.INT(64)); b = self.cast('ptrtoint', y, llir.PTR, llir.INT(64))
        return {'ult': ult, 'ule': tm.ule, 'ugt': tm.ugt, 'uge': tm.uge}[pred](a, b)

    def do_call(self, ins, st):
        env = st.env
        cal = ins.x
        if cal[0] == 'g': name = self.m.aliases.get(cal[1], cal[1])
        else:
            fn = self.val(cal, llir.PTR, env, st.mem)
            if not isinstance(fn, Fn): raise Unsupported('indirect call through non-constant pointer')
            name = fn.name
        if IGNORE_RE.match(name):
            if ins.dst: env[ins.dst] = const(0, ins.ty.w) if ins.ty.k == 'int' else NULL
            return
        args = [self.val(v, t, env, st.mem) if v is not None else None for t, v in ins.a]
        if name.startswith('@llvm.'):
            r = self.intrinsic(name, args, st, ins)
        else:
            callee_st = State(st.conds, None, st.mem)
            f = self.m.func(name)
            if f is None:
                r = self.external(name, args, st, ins)
            else:
                cs = State(st.conds, None, dict(st.mem))
                # byval/sret allocas live in caller memory: shared dict, copied above
                r = self.call(name, args, cs)
                st.conds = cs.conds; st.mem = cs.mem
        if ins.dst: env[ins.dst] = r

    def intrinsic(self, name, a, st, ins):
        n = name[6:]
        if n.startswith('ctlz'):
            return tm.ctlz(a[0])
        if n.startswith('cttz'): return tm.cttz(a[0])
        if n.startswith('ctpop'): return tm.ctpop(a[0])
        if n.startswith('umin'): return ite(ult(a[0], a[1]), a[0], a[1])
        if n.startswith('umax'): return ite(ult(a[0], a[1]), a[1], a[0])
        if n.startswith('smin'): return ite(tm.slt(a[0], a[1]), a[0], a[1])
        if n.startswith('smax'): return ite(tm.slt(a[0], a[1]), a[1], a[0])
        if n.startswith('abs'): return tm._abs(a[0])
        if n.startswith('fshl') or n.startswith('fshr'):
            w = a[0].w
            s = tm.urem(a[2], const(w, w))
            cat = concat(a[0], a[1]); s2 = zext(s, 2 * w)
            if n.startswith('fshl'): return extract(2 * w - 1, w, tm.shl(cat, s2))
            return extract(w - 1, 0, tm.lshr(cat, s2))
        if n.startswith('bswap'):
            return concat(*[extract(8 * i + 7, 8 * i, a[0]) for i in range(a[0].w // 8)])
        if n.startswith('bitreverse'):
            return concat(*[tm.bit(a[0], i) for i in range(a[0].w)])
        m = re.match(r'(u|s)(add|sub|mul)\.with\.overflow', n)
        if m:
            w = a[0].w
            ex = (lambda t: zext(t, 2 * w)) if m.group(1) == 'u' else (lambda t: sext(t, 2 * w))
            f = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul}[m.group(2)]
            r = f(a[0], a[1]); full = f(ex(a[0]), ex(a[1]))
            return (r, tm.ne(full, ex(r)))
        m = re.match(r'u(add|sub)\.sat', n)
        if m:
            w = a[0].w
            if m.group(1) == 'add':
                r = tm.add(zext(a[0], w + 1), zext(a[1], w + 1))
                return ite(tm.bit(r, w), const(-1, w), tm.trunc(r, w))
            return ite(ult(a[0], a[1]), const(0, w), tm.sub(a[0], a[1]))
        if n.startswith('memcpy') or n.startswith('memmove'):
            self.memcpy(st, a[0], a[1], tm.cv(a[2])); return None
        if n.startswith('memset'):
            cnt = tm.cv(a[2])
            if cnt == 0: return None
            g, o, f = a[0].alts[0]
            ob = self.mem_w(st.mem, o, st); off = tm.cv(f)
            if off + cnt > ob.n: self.oblige(st, TRUE, 'memory', 'memset out of bounds'); raise Dead()
            for i in range(cnt): ob.b[off + i] = a[1]
            return None
        if n.startswith('trap') or n.startswith('ubsantrap'):
            self.oblige(st, TRUE, 'ub', 'sanitizer trap %s' % (tm.cv(a[0]) if a else '')); raise Dead()
        if n.startswith('expect'): return a[0]
        if n.startswith('is.constant'): return const(0, 1)
        if n.startswith('objectsize'): return const(-1, ins.ty.w)
        import fpterm
        r = fpterm.intrinsic(n, a)
        if r is not None: return r
        raise Unsupported('intrinsic ' + name)

    def external(self, name, a, st, ins=None):
        if name == '@__assert_fail':
            self.oblige(st, TRUE, 'assert', 'assert(%s) line %s' % (self.cstr(a[0], st), tm.cv(a[2]) if tm.is_c(a[2]) else '?'))
            raise Dead()
        if name in ABORTS or name.startswith('@_ZSt') and '__throw' in name:
            self.oblige(st, TRUE, 'abort', 'call to ' + name); raise Dead()
        if name == '@__cxa_guard_acquire': return const(1, 32)
        if name == '@__cxa_allocate_exception':
            return mkptr(self.newobj(st.mem, max(16, tm.cv(a[0])), 'exception'), 0)
        if name in ('@_ZNSt13runtime_errorC1EPKc', '@_ZNSt11logic_errorC1EPKc', '@_ZNSt13runtime_errorD1Ev'): return None
        if name in ('@_Znwm', '@_Znam', '@malloc'):
            return mkptr(self.newobj(st.mem, tm.cv(a[0]), 'heap'), 0)
        if name in ('@_ZdlPv', '@_ZdlPvm', '@_ZdaPv', '@free'): return None
        if name == '@strlen': return const(len(self.cstr(a[0], st)), 64)
        if name in ('@memcpy', '@memmove'):
            self.memcpy(st, a[0], a[1], tm.cv(a[2])); return a[0]
        import fpterm
        r = fpterm.libm(name[1:], a, self, st)
        if r is not None: return r
        if name.startswith('@__gmpz_'):      # only reached from debug printing: results never flow back (they would be NULL)
            self.stubs.add(name)
            if name == '@__gmpz_get_str':
                o = self.newobj(st.mem, 1, 'str'); st.mem[o].b[0] = const(0, 8); return mkptr(o, 0)
            return NULL if ins and ins.ty.k == 'ptr' else (const(0, ins.ty.w) if ins and ins.ty.k == 'int' else None)
        if OSTREAM_RE.match(name):
            self.stubs.add(name)
            return a[0] if a and isinstance(a[0], Ptr) else (const(0, ins.ty.w) if ins and ins.ty.k == 'int' else None)
        if st.guard() is FALSE: raise Dead()
        raise Unsupported('external call ' + name)

class Dead(Exception): pass

class Inst_call(object):
    def __init__(self, t):
        self.op = 'call'; self.dst = t.dst; self.ty = t.ty; self.a = t.a; self.x = t.x[0]

def run_ctors(eng, mem):
    """execute the translation unit's dynamic initialisers concretely"""
    g = eng.m.globals.get('@llvm.global_ctors')
    if not g or not g[1] or g[1][0] != 'agg': return
    for (t, v) in g[1][1]:
        fn = v[1][1][1]
        if fn[0] == 'g':
            st = State((), None, dict(mem))
            eng.call(fn[1], [], st)
            mem.clear(); mem.update(st.mem)

def run_entry(eng, name, inputs, nout):
    """call  void name(const u128 *in, u128 *out)  with inputs = list of 128-bit terms.
       Returns list of 128-bit output terms (None on no returning path) and final guard."""
    mem = {}
    run_ctors(eng, mem)
    bi = eng.newobj(mem, 16 * max(1, len(inputs)), 'in')
    bo = eng.newobj(mem, 16 * max(1, nout), 'out')
    t = llir.INT(128)
    for i, x in enumerate(inputs): eng._putbytes(mem[bi].b, 16 * i, t, x)
    for i in range(nout): eng._putbytes(mem[bo].b, 16 * i, t, const(0, 128))
    st = State((), None, mem)
    try:
        eng.call('@' + name, [mkptr(bi, 0), mkptr(bo, 0)], st)
    except Dead:
        return None, FALSE
    ob = st.mem[bo]
    return [eng._getbytes(ob.b, 16 * i, t) for i in range(nout)], st.guard()
