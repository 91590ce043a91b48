"""Parser for the subset of textual LLVM IR (clang 18) the harnesses produce."""
import re

# ------------------------------------------------------------------ types
class Ty(object):
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'packed', '_size', '_offs')
    def __init__(self, k, w=0, n=0, el=None, els=None, packed=False):
        self.k = k; self.w = w; self.n = n; self.el = el; self.els = els; self.packed = packed
        self._size = None; self._offs = None
    def __repr__(self):
        return self.k + (str(self.w) if self.k == 'int' else '')

PTR = Ty('ptr', 64); VOID = Ty('void'); DOUBLE = Ty('double', 64); FLOAT = Ty('float', 32)
LABEL = Ty('label'); META = Ty('metadata'); X86 = Ty('x86_fp80', 80)
_ints = {}
def INT(w):
    if w not in _ints: _ints[w] = Ty('int', w)
    return _ints[w]

def align(t):
    if t.k == 'int':
        b = (t.w + 7) // 8
        a = 1
        while a < b: a *= 2
        return min(a, 16)
    if t.k in ('ptr', 'double'): return 8
    if t.k == 'float': return 4
    if t.k == 'x86_fp80': return 16
    if t.k == 'array': return align(t.el)
    if t.k == 'vec': return max(1, size(t))
    if t.k == 'struct': return 1 if t.packed else max([1] + [align(e) for e in t.els])
    raise Exception('align ' + t.k)

def size(t):
    if t._size is not None: return t._size
    if t.k == 'int':
        b = (t.w + 7) // 8
        a = align(t)
        r = (b + a - 1) // a * a
    elif t.k in ('ptr', 'double'): r = 8
    elif t.k == 'float': r = 4
    elif t.k == 'x86_fp80': r = 16
    elif t.k == 'array': r = t.n * size(t.el)
    elif t.k == 'vec': r = (t.n * t.el.w + 7) // 8
    elif t.k == 'struct':
        o = 0; offs = []
        for e in t.els:
            a = 1 if t.packed else align(e)
            o = (o + a - 1) // a * a
            offs.append(o); o += size(e)
        a = align(t)
        o = (o + a - 1) // a * a
        t._offs = offs; r = o
    else: raise Exception('size ' + t.k)
    t._size = r
    return r
def offs(t):
    size(t); return t._offs

# ------------------------------------------------------------------ lexer
TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gid>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<lid>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>0x[KMLHR]?[0-9a-fA-F]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<p>[()\[\]{}<>,=*:|^])
''', re.X)

def lex(s):
    out = []; i = 0; n = len(s)
    while i < n:
        if s[i] == ';': break
        m = TOK.match(s, i)
        if not m: raise Exception('lex error at: ' + s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out

class Inst(object):
    __slots__ = ('op', 'dst', 'ty', 'a', 'x')
    def __init__(self, op, dst=None, ty=None, a=(), x=None):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.x = x

class Block(object):
    def __init__(self, name): self.name = name; self.insts = []; self.phis = []; self.term = None
class Func(object):
    def __init__(self, name, ret, params):
        self.name = name; self.ret = ret; self.params = params; self.blocks = {}; self.order = []; self.lines = None

PARAM_ATTRS = set('''noundef nonnull nocapture readonly writeonly readnone noalias returned signext zeroext
 inreg nest immarg swiftself nofree dead_on_unwind writable allocptr inrange'''.split())
CC = set('fastcc ccc coldcc tailcc'.split())

class P(object):
    """token-stream parser; values are tuples:
       ('c', int) const int ; ('v', name) local ; ('g', name) global ; ('undef',) ; ('null',) ; ('zero',)
       ('agg', [(ty,val)...]) ; ('fp', bits) ; ('ce', op, ...) ; ('str', bytes)"""
    def __init__(self, mod, toks): self.m = mod; self.t = toks; self.i = 0
    def pk(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None
    def pkk(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def nx(self):
        r = self.t[self.i][1]; self.i += 1; return r
    def eat(self, s):
        if self.pk() == s: self.i += 1; return True
        return False
    def need(self, s):
        if not self.eat(s): raise Exception('expected %s got %s in %s' % (s, self.pk(), ' '.join(x[1] for x in self.t[:80])))
    def end(self): return self.i >= len(self.t)

    def type(self):
        k = self.nx()
        if k == 'ptr': t = PTR
        elif k == 'void': t = VOID
        elif k == 'double': t = DOUBLE
        elif k == 'float': t = FLOAT
        elif k == 'x86_fp80': t = X86
        elif k == 'label': t = LABEL
        elif k == 'metadata': t = META
        elif k[0] == 'i' and k[1:].isdigit(): t = INT(int(k[1:]))
        elif k == '[':
            n = int(self.nx()); self.need('x'); el = self.type(); self.need(']')
            t = Ty('array', n=n, el=el)
        elif k == '{':
            t = Ty('struct', els=self.typelist('}'))
        elif k == '<':
            if self.pk() == '{':
                self.nx(); els = self.typelist('}'); self.need('>')
                t = Ty('struct', els=els, packed=True)
            else:
                n = int(self.nx()); self.need('x'); el = self.type(); self.need('>')
                t = Ty('vec', n=n, el=el)
        elif k[0] == '%':
            t = self.m.named(k)
        else: raise Exception('type? ' + k + ' in ' + ' '.join(x[1] for x in self.t[:60]))
        if self.pk() == '(' and t.k != 'label':
            # function type (in calls); skip parameter types
            save = self.i
            d = 0
            while True:
                x = self.nx()
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
            nk = self.pk()
            if nk is not None and (nk[0] in '@%' or nk == 'asm'):
                t = Ty('fn', el=t)
            else:
                self.i = save
        return t
    def typelist(self, close):
        els = []
        if self.eat(close): return els
        while True:
            els.append(self.type())
            if self.eat(close): return els
            self.need(',')

    def attrs(self):
        """skip parameter attributes"""
        info = {}
        while not self.end():
            k = self.pk()
            if k in PARAM_ATTRS: self.nx()
            elif k in ('align',):
                self.nx()
                if self.eat('('): self.nx(); self.need(')')
                else: self.nx()
            elif k in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'memory', 'nofpclass', 'initializes'):
                self.nx()
                if self.pk() == '(':
                    d = 0
                    while True:
                        x = self.nx()
                        if x == '(': d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0: break
            elif k in ('local_unnamed_addr', 'unnamed_addr', 'dso_local', 'noreturn', 'nounwind'): self.nx()
            else: break
        return info

    def value(self, ty):
        kd, s = self.t[self.i]; 
        if kd == 'num':
            self.i += 1
            if ty.k in ('double', 'float'):
                return ('fp', fpbits(s, ty))
            return ('c', int(s))
        if kd == 'lid': self.i += 1; return ('v', s)
        if kd == 'gid': self.i += 1; return ('g', s)
        if kd == 'str':
            self.i += 1
            return ('str', unesc(s[2:-1]))
        self.i += 1
        if s == 'true': return ('c', 1)
        if s == 'false': return ('c', 0)
        if s == 'null': return ('null',)
        if s in ('undef', 'poison'): return ('undef',)
        if s == 'zeroinitializer': return ('zero',)
        if s == 'none': return ('undef',)
        if s in ('{', '[', '<'):
            packed = False
            if s == '<' and self.pk() == '{': self.nx(); packed = True; close = '}'
            else: close = {'{': '}', '[': ']', '<': '>'}[s]
            els = []
            if not self.eat(close):
                while True:
                    t = self.type(); els.append((t, self.value(t)))
                    if self.eat(close): break
                    self.need(',')
            if packed: self.need('>')
            return ('agg', els)
        if s == 'getelementptr':
            self.eat('inbounds')
            while self.pk() in ('nuw', 'nusw'): self.nx()
            self.need('('); sty = self.type(); self.need(',')
            ops = []
            while True:
                while self.pk() in ('inrange',): 
                    self.nx()
                    if self.eat('('):
                        while not self.eat(')'): self.nx()
                t = self.type(); ops.append((t, self.value(t)))
                if self.eat(')'): break
                self.need(',')
            return ('ce', 'gep', sty, ops)
        if s in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.need('('); t = self.type(); v = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
            return ('ce', 'cast', s, t, v, t2)
        if s in ('sub', 'add'):
            while self.pk() in ('nuw', 'nsw'): self.nx()
            self.need('('); t = self.type(); v = self.value(t); self.need(','); t2 = self.type(); v2 = self.value(t2); self.need(')')
            return ('ce', 'bin', s, t, v, v2)
        if s == 'asm': raise Exception('inline asm')
        raise Exception('value? ' + s + ' :: ' + ' '.join(x[1] for x in self.t[:60]))
    def tv(self):
        t = self.type(); self.attrs()
        return (t, self.value(t))

def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

import struct
def fpbits(s, ty):
    if s.startswith('0x'):
        b = int(s[2:], 16)
        d = b
    else:
        d = struct.unpack('<Q', struct.pack('<d', float(s)))[0]
    if ty.k == 'float':
        f = struct.unpack('<d', struct.pack('<Q', d))[0]
        return struct.unpack('<I', struct.pack('<f', f))[0]
    return d

BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc bitcast ptrtoint inttoptr fptoui fptosi uitofp sitofp fpext fptrunc addrspacecast'.split())
FLAGS = set('nuw nsw exact disjoint nneg fast nnan ninf nsz arcp contract afn reassoc inbounds samesign nusw'.split())

class Module(object):
    def __init__(self, path):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}
        self.aliases = {}
        self._load(path)
    def named(self, k):
        t = self.types.get(k)
        if t is None:
            t = Ty('struct', els=None); self.types[k] = t
        return t
    def _load(self, path):
        lines = open(path).read().split('\n')
        i = 0; n = len(lines)
        pend = []
        while i < n:
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                p = P(self, lex(l)); nm = p.nx(); p.need('='); p.need('type')
                if p.pk() == 'opaque': self.named(nm)
                else:
                    t = p.type(); s = self.named(nm); s.els = t.els; s.packed = t.packed
            elif l.startswith('@'):
                pend.append(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self._func(l, lines[i + 1:j]); i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                self.decls['@' + m.group(1)] = l
            i += 1
        for l in pend: self._global(l)
    def _global(self, l):
        p = P(self, lex(l)); nm = p.nx(); p.need('=')
        isconst = False; ext = False
        while True:
            k = p.pk()
            if k in ('global', 'constant'):
                isconst = (k == 'constant'); p.nx(); break
            if k == 'alias':
                p.nx(); p.type(); p.need(','); t = p.type(); self.aliases[nm] = p.value(t)[1]; return
            if k == 'external': ext = True
            p.nx()
            if k in ('thread_local',) and p.eat('('):
                while not p.eat(')'): p.nx()
        t = p.type()
        init = None
        if not p.end() and p.pk() != ',' and not ext:
            init = p.value(t)
        self.globals[nm] = (t, init, isconst)
    def _func(self, head, body):
        toks = lex(head)
        p = P(self, toks)
        # return type = type right before '@name'
        gi = next(k for k, x in enumerate(toks) if x[0] == 'gid')
        name = toks[gi][1]
        # find return type start: parse from the back is hard; scan forward skipping keywords
        p.i = 1
        while True:
            k = p.pk()
            kd = p.pkk()
            if k in ('dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'weak', 'private', 'available_externally', 'hidden', 'local_unnamed_addr', 'unnamed_addr', 'linkonce', 'external') or k in CC:
                p.nx(); continue
            sv = p.i; p.attrs()
            if p.i == sv: break
        ret = p.type()
        p.i = gi + 1
        p.need('(')
        params = []
        if not p.eat(')'):
            while True:
                if p.pk() == '...': p.nx()
                else:
                    t = p.type(); p.attrs()
                    nm = p.nx() if p.pkk() == 'lid' else '%' + str(len(params))
                    params.append((t, nm))
                if p.eat(')'): break
                p.need(',')
        f = Func(name, ret, params); f.lines = body
        self.funcs[name] = f
    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is not None and f.lines is not None:
            self._body(f)
        return f
    def _body(self, f):
        lines = f.lines; f.lines = None
        # join multi-line switch
        out = []; i = 0
        while i < len(lines):
            l = lines[i]
            if re.match(r'\s+switch ', l) and ']' not in l:
                while ']' not in lines[i]:
                    i += 1; l += ' ' + lines[i].strip()
            elif re.match(r'\s+(%[\w.$-]+ = )?invoke ', l) and ' unwind label' not in l:
                i += 1; l += ' ' + lines[i].strip()
            elif 'landingpad' in l:
                while i + 1 < len(lines) and re.match(r'\s+(cleanup|catch|filter)', lines[i + 1]): i += 1
            out.append(l); i += 1
        cur = None
        nparam = len(f.params)
        for l in out:
            if not l.strip() or l.lstrip().startswith(';'): continue
            if l[0] not in ' \t':
                m = re.match(r'("[^"]*"|[-\w$.]+):', l)
                nm = '%' + m.group(1)
                cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
                continue
            if cur is None:
                cur = Block('%entry!'); f.blocks[cur.name] = cur; f.order.append(cur.name)
            ins = self._inst(l)
            if ins is None: continue
            if ins.op == 'phi': cur.phis.append(ins)
            elif ins.op in ('br', 'condbr', 'switch', 'ret', 'unreachable', 'invoke', 'resume', 'indirectbr'):
                cur.term = ins
            else: cur.insts.append(ins)
        # unnamed entry block may be referenced by a number: map
        if '%entry!' in f.blocks:
            ref = str(nparam)
            f.entry_alias = '%' + ref
        f.entry = f.order[0]
    def _inst(self, l):
        p = P(self, lex(l))
        dst = None
        if p.pkk() == 'lid' and p.pk(1) == '=':
            dst = p.nx(); p.nx()
        op = p.nx()
        while op in ('tail', 'musttail', 'notail'): op = p.nx()
        if op in BIN:
            fl = []
            while p.pk() in FLAGS: fl.append(p.nx())
            t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return Inst(op, dst, t, (a, b), fl)
        if op == 'fneg':
            while p.pk() in FLAGS: p.nx()
            t = p.type(); a = p.value(t); return Inst(op, dst, t, (a,))
        if op in CAST:
            while p.pk() in FLAGS: p.nx()
            t = p.type(); a = p.value(t); p.need('to'); t2 = p.type()
            return Inst(op, dst, t2, (a,), t)
        if op in ('icmp', 'fcmp'):
            while p.pk() in FLAGS: p.nx()
            pred = p.nx(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return Inst(op, dst, t, (a, b), pred)
        if op == 'select':
            while p.pk() in FLAGS: p.nx()
            ct = p.type(); c = p.value(ct); p.need(','); t = p.type(); a = p.value(t); p.need(','); t2 = p.type(); b = p.value(t2)
            return Inst(op, dst, t, (c, a, b))
        if op == 'phi':
            while p.pk() in FLAGS: p.nx()
            t = p.type(); inc = []
            while True:
                p.need('['); v = p.value(t); p.need(','); b = p.nx(); p.need(']')
                inc.append((b, v))
                if not p.eat(','): break
                if p.pkk() == 'meta': break
            return Inst(op, dst, t, (), inc)
        if op == 'load':
            p.eat('atomic'); p.eat('volatile')
            t = p.type(); p.need(','); pt = p.type(); a = p.value(pt)
            return Inst(op, dst, t, (a,))
        if op == 'store':
            p.eat('atomic'); p.eat('volatile')
            t = p.type(); v = p.value(t); p.need(','); pt = p.type(); a = p.value(pt)
            return Inst(op, None, t, (v, a))
        if op == 'alloca':
            p.eat('inalloca')
            t = p.type(); cnt = ('c', 1)
            if p.eat(',') and p.pk() != 'align':
                ct = p.type(); cnt = p.value(ct)
            return Inst(op, dst, t, (cnt,))
        if op == 'getelementptr':
            while p.pk() in FLAGS: p.nx()
            st = p.type(); p.need(',')
            ops = []
            while True:
                t = p.type(); ops.append((t, p.value(t)))
                if not p.eat(','): break
                if p.pkk() == 'meta': break
            return Inst(op, dst, st, ops)
        if op in ('call', 'invoke'):
            while p.pk() in FLAGS or p.pk() in CC: p.nx()
            p.attrs()
            t = p.type()
            if t.k == 'fn': t = t.el
            if p.pk() == 'asm': raise Exception('asm')
            kd = p.pkk()
            callee = p.value(PTR)
            p.need('(')
            args = []
            if not p.eat(')'):
                while True:
                    at = p.type()
                    if at.k == 'metadata':
                        # skip
                        d = 0
                        while p.pk() not in (',', ')') or d:
                            x = p.nx()
                            if x == '(': d += 1
                            if x == ')': d -= 1
                        args.append((at, None))
                    else:
                        p.attrs(); args.append((at, p.value(at)))
                    if p.eat(')'): break
                    p.need(',')
            normal = None
            if op == 'invoke':
                while p.pk() != 'to': p.nx()
                p.nx(); p.need('label'); normal = p.nx()
                return Inst('invoke', dst, t, args, (callee, normal))
            return Inst('call', dst, t, args, callee)
        if op == 'br':
            if p.pk() == 'label':
                p.nx(); return Inst('br', None, None, (), p.nx())
            t = p.type(); c = p.value(t); p.need(','); p.need('label'); a = p.nx(); p.need(','); p.need('label'); b = p.nx()
            return Inst('condbr', None, None, (c,), (a, b))
        if op == 'switch':
            t = p.type(); v = p.value(t); p.need(','); p.need('label'); d = p.nx(); p.need('[')
            cs = []
            while not p.eat(']'):
                ct = p.type(); cvv = p.value(ct); p.need(','); p.need('label'); cs.append((cvv[1], p.nx()))
            return Inst('switch', None, t, (v,), (d, cs))
        if op == 'ret':
            t = p.type()
            if t.k == 'void': return Inst('ret', None, t, ())
            return Inst('ret', None, t, (p.value(t),))
        if op == 'unreachable': return Inst('unreachable')
        if op == 'resume': return Inst('unreachable')
        if op == 'landingpad': return Inst('landingpad', dst)
        if op == 'extractvalue':
            t = p.type(); v = p.value(t); idx = []
            while p.eat(','):
                if p.pkk() == 'meta': break
                idx.append(int(p.nx()))
            return Inst(op, dst, t, (v,), idx)
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.need(','); t2 = p.type(); v2 = p.value(t2); idx = []
            while p.eat(','):
                if p.pkk() == 'meta': break
                idx.append(int(p.nx()))
            return Inst(op, dst, t, (v, v2), (idx, t2))
        if op == 'freeze':
            t = p.type(); return Inst(op, dst, t, (p.value(t),))
        if op == 'fence': return None
        raise Exception('inst? ' + l)
