"""Check driver: compiles harnesses against /repo's current headers, executes the
resulting IR symbolically, discharges the property queries with a SAT solver,
replays every counterexample natively, writes the evidence file."""
import os, sys, time, json, subprocess, tempfile, shutil, re, signal, random, select, pickle, traceback, hashlib, zlib
import multiprocessing as mp
import term as tm, llir, symex, solve, recur
from term import const, zext, extract, concat, AND, OR, NOT

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
NCPU = int(os.environ.get('VP_JOBS', '8'))

CXX = ['-std=c++11', '-w', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(VERIF, 'harness'), '-DTHLS_FW_UINT_ON_MASKED_UINT=1']
SAN = 'shift,integer-divide-by-zero,bounds,unreachable,return,signed-integer-overflow,array-bounds'
IRFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-discard-value-names', '-fno-unroll-loops',
           '-fsanitize=' + SAN, '-fsanitize-trap=all', '-S', '-emit-llvm']

class Group(object):
    """one translation unit"""
    def __init__(self, name, code, extra_flags=()):
        self.name = name; self.code = code; self.flags = list(extra_flags)
        self.jobs = []
        self.ll = None; self.err = None
    def job(self, *a, **k):
        j = Job(self, *a, **k); self.jobs.append(j); return j

class Job(object):
    """entry: extern "C" void entry(const u128*, u128*)
    ins: [(name, width)]; nout: number of outputs
    spec(i, o) -> list of (label, bad) / (label, bad, extra assumption); i: dict name->term, o: list of 128-bit terms
    pre(i) -> assumption on the inputs (term)
    cubes(i) -> list of terms; the queries are split over them and their exhaustiveness is itself a query
    witness(i) -> list of (label, term): must be satisfiable under pre (vacuity guard; inputs only)
    known: dict finding-name -> fn(i) -> term selecting the inputs of that finding
    cut(i) -> [(term, constraint function)]: inner terms that may be replaced by any value satisfying the
    constraint (which is itself decided to hold); tried first, the exact query follows if that is not enough
    recur(i, o, only) -> division by digit recurrence, tried first (see recur.py): dict with
      'map': {input: shape} for the family with a finite nonzero quotient, 'sx','sy': its significand terms,
      'x','y': names of the free variables in them, 'bad': fn(output, quotient digits, sticky), 'rest': [(name, {input: shape})]"""
    def __init__(self, group, entry, ins, nout, spec, pre=None, cubes=None, witness=None, timeout=None, known=None,
                 safety=True, fixed=None, cost=1, safety_only=False, hooks=None, config=None, ignore_obl=None, cut=None, recur=None):
        self.g = group; self.entry = entry; self.ins = ins; self.nout = nout; self.spec = spec; self.pre = pre
        self.cubes = cubes; self.witness = witness; self.timeout = timeout; self.known = known or {}
        self.safety = safety; self.fixed = fixed or {}; self.cost = cost; self.config = config or entry
        self.safety_only = safety_only; self.hooks = hooks; self.ignore_obl = ignore_obl
        self.cut = cut; self.recur = recur
        self.ncubes = 0

PRELUDE = '''#include "vp_common.hpp"
'''
DRIVER = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <cstdlib>
typedef unsigned __int128 u128;
static u128 rd(const char*s){ u128 v=0; for(;*s;s++){ int d=(*s<='9')?*s-'0':(*s|32)-'a'+10; v=v*16+d;} return v; }
%(decls)s
int main(int argc,char**argv){
  char line[8192];
  while(fgets(line,sizeof line,stdin)){
    u128 in[64]; u128 out[64]; memset(in,0,sizeof in); memset(out,0,sizeof out);
    char*save=0; char*nm=strtok_r(line," \n",&save); if(!nm) continue;
    int n=0; char*t; while((t=strtok_r(0," \n",&save))) in[n++]=rd(t);
    int no=0;
    %(disp)s
    for(int i=0;i<no;i++) printf("%%llx_%%llx ",(unsigned long long)(out[i]>>64),(unsigned long long)out[i]);
    printf("\n"); fflush(stdout);
  }
}
'''

def driver_src(jobs):
    return DRIVER % {
        'decls': '\n'.join('extern "C" void %s(const u128*,u128*);' % j.entry for j in jobs),
        'disp': ' else '.join('if(!strcmp(nm,"%s")){ %s(in,out); no=%d; }' % (j.entry, j.entry, j.nout) for j in jobs) }

def parse_out(line):
    r = []
    for x in line.split():
        a, b = x.split('_'); r.append((int(a, 16) << 64) | int(b, 16))
    return r

class NotYet(object): pass

def run(prop, groups, tier, level='model_checking', assumptions=(), bounds='', notes='', budget=None, extra=None, seed=None):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed
    budget = budget or (float(os.environ.get('VP_BUDGET', '0')) or (300 if tier == 'quick' else 840))
    deadline = t0 + budget
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    os.environ['VP_SCRATCH'] = scratch
    try:
        return _run(prop, groups, tier, level, assumptions, bounds, notes, deadline, scratch, t0, seed, extra)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def entry_lines(code):
    """line numbers (1-based) of each harness entry in a source text"""
    ent, cur = {}, None
    for n, l in enumerate(code.split('\n'), 1):
        m = re.match(r'\s*VP\s+(\w+)\s*\(', l)
        if m: cur = m.group(1)
        elif cur and l[:1] not in (' ', '\t', '}', ''): cur = None
        if cur: ent.setdefault(cur, []).append(n)
    return ent

def compile_group(g, scratch):
    """one translation unit per group; entries whose instantiation the headers do not accept are dropped and the rest kept"""
    src = os.path.join(scratch, g.name + '.cpp')
    code = PRELUDE + g.code
    g.src = src
    ll = os.path.join(scratch, g.name + '.ll')
    dropped, first = [], None
    for _ in range(4):
        with open(src, 'w') as f: f.write(code)
        p = subprocess.run(['clang++'] + CXX + IRFLAGS + ['-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics'] + g.flags + [src, '-o', ll], capture_output=True, text=True, timeout=300)
        if p.returncode == 0: return ll, ((dropped, first) if dropped else None)
        if first is None: first = '\n'.join(l for l in p.stderr.split('\n') if 'error' in l)[:1500] or p.stderr[:1500]
        bad = set(int(x) for x in re.findall(re.escape(src) + r':(\d+):', p.stderr))
        ent = entry_lines(code)
        hit = [e for e, ls in ent.items() if bad & set(ls)]
        if not hit or len(hit) == len(ent): break
        ls = code.split('\n')
        for e in hit:
            for n in ent[e]: ls[n - 1] = ''
        code = '\n'.join(ls); dropped += hit
    return None, first

def native(g, scratch, kind):
    """build the replay executable for a group; kind: plain | san | ir"""
    exe = os.path.join(scratch, '%s.%s.exe' % (g.name, kind))
    if os.path.exists(exe): return exe
    drv = os.path.join(scratch, g.name + '.drv.cpp')
    if not os.path.exists(drv):
        with open(drv, 'w') as f: f.write(driver_src(g.jobs))
    tmp = exe + '.tmp%d' % os.getpid()
    if kind == 'ir':
        cmd = ['clang++', '-O0', '-w'] + [f for f in g.flags if f.startswith(('-l', '-Wl'))] + [g.ll, drv, '-o', tmp]
    elif kind == 'plain':
        cmd = ['g++', '-O1'] + CXX + g.flags + [g.src, drv, '-o', tmp]
    else:
        cmd = ['clang++', '-O1', '-g', '-fsanitize=undefined,address', '-fno-sanitize-recover=all'] + CXX + g.flags + [g.src, drv, '-o', tmp]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if p.returncode != 0: return None
    os.rename(tmp, exe)
    return exe

def native_run(exe, lines, timeout=60):
    p = subprocess.run([exe], input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout, p.stderr

def in_line(j, model):
    return j.entry + ' ' + ' '.join('%x' % (model.get(n, 0) & ((1 << w) - 1)) for n, w in j.ins)

# ---------------------------------------------------------------- one job in its own process
def exec_job(j):
    m = llir.Module(j.g.ll)
    eng = symex.Engine(m)
    i = {n: (const(j.fixed[n], w) if n in j.fixed else tm.var(n, w)) for n, w in j.ins}
    if j.hooks: j.hooks(eng, i)
    out, guard = symex.run_entry(eng, j.entry, [zext(i[n], 128) for n, w in j.ins], j.nout)
    return eng, i, out

def job_main(j, cube, deadline, scratch, active_known, tier):
    R = {'entry': j.entry, 'cube': cube, 'queries': [], 'viol': [], 'known': [], 'undecided': [], 'err': None, 'funcs': {}, 'stats': None}
    t0 = time.time(); out = NotYet
    try:
        eng, i, out = exec_job(j)
        R['funcs'] = eng.funcs_run; R['steps'] = eng.steps; R['blocks'] = eng.blocks; R['symex_s'] = time.time() - t0
        R['stubs'] = sorted(eng.stubs)
        pre = [j.pre(i)] if j.pre else []
        cubes = j.cubes(i) if j.cubes else None; cubemaps = None
        if cubes is not None:      # (condition, {variable: shape}): the variable has that shape in this cube
            cubemaps = [c[1] if isinstance(c, tuple) else {} for c in cubes]
            cubes = [AND(c[0], *[tm.eq(i[n], t) for n, t in c[1].items()]) if isinstance(c, tuple) else c for c in cubes]
            assert len(cubes) == j.ncubes, (j.entry, len(cubes))
        def ask(label, bad, assume, record=True):
            left = deadline - time.time()
            if left < 2:
                R['undecided'].append((label, 'budget')); return 'unknown', None
            to = min(j.timeout or (100 if tier == 'quick' else 400), left)
            v, mo, dt = solve.check(bad, assume, timeout=to)
            if record: R['queries'].append((label, v, round(dt, 3)))
            if v == 'unknown': R['undecided'].append((label, 'time limit %ds' % to))
            return v, mo
        if cubes is not None and cube == -1:
            bad = NOT(OR(*cubes))
            v, mo = ask('case split is exhaustive', bad, pre)
            if v == 'sat': R['err'] = 'case split not exhaustive: %r' % mo
            cubes_done = True
        else:
            sub0 = {}; cubelits = []
            if cubes is not None:
                cubelits = [cubes[cube]]
                st = [cubes[cube]]
                while st:
                    x = st.pop()
                    if x.op == 'and': st += list(x.a)
                    elif x.op == 'not': sub0[x.id] = tm.TRUE; sub0[x.a[0].id] = tm.FALSE
                    elif x.op != 'const': sub0[x.id] = tm.TRUE
            def ask2(label, bad, assume):
                """query under the cube (its literals are replaced by constants), cut points abstracted first"""
                if cubes is not None and cubemaps[cube]:
                    l = tm.substitute([bad] + list(assume), cubemaps[cube]); bad, assume = l[0], l[1:]
                elif sub0:
                    l = tm.substitute([bad] + list(assume), sub0)
                    bad, assume = l[0], l[1:]
                if j.cut:
                    cs = j.cut(i)
                    sb = cubemaps[cube] if cubes is not None and cubemaps[cube] else sub0
                    ct = tm.substitute([t for t, f in cs], sb) if sb else [t for t, f in cs]
                    m = {}; cons = []
                    for k, (t, (_, f)) in enumerate(zip(ct, cs)):
                        if t.op == 'const' or t.id in m: continue
                        v = tm.var('cut!%d' % k, t.w); m[t.id] = v; cons.append(f(v))
                    l = tm.substitute([bad] + list(assume), m)
                    left = deadline - time.time()
                    v, mo, dt = solve.check(l[0], l[1:] + cons + cubelits, timeout=max(1, min(j.timeout or (60 if tier == 'quick' else 300), left)))
                    if v == 'unsat':
                        R['queries'].append((label + ' [inner products abstracted]', v, round(dt, 3)))
                        return v, mo
                v, mo = ask(label, bad, list(assume) + cubelits)
                if v == 'unknown' and deadline - time.time() > 20: v, mo = hunt(label, bad, list(assume) + cubelits, v, mo)
                return v, mo
            def hunt(label, bad, assume, v, mo):
                """the whole query is out of reach: decide it on sub-families (the low bits of an operand fixed, the rest symbolic)"""
                rnd = random.Random(zlib.crc32((label + j.entry).encode()) + int(os.environ.get('VERIF_SEED', '1')))
                vs = [(n, w) for n, w in j.ins if n not in j.fixed and w >= 6]
                t1 = time.time(); dec = 0; tried = 0
                for k in range(24):
                    if not vs or time.time() - t1 > (70 if tier == 'quick' else 150) or deadline - time.time() < 12: break
                    m = {}
                    pick = [vs[k % len(vs)]] if k % 3 < 2 else vs
                    for n, w in pick:
                        f = [w - 1, (3 * w) // 4, (2 * w) // 3, w // 2][k % 4]
                        f = max(1, min(f, w - 4))
                        pat = rnd.choice([0, -1, 1, -2, 1 << rnd.randrange(f), ~(1 << rnd.randrange(f)), rnd.getrandbits(f), rnd.getrandbits(f), rnd.getrandbits(f)])
                        m[n] = concat(extract(w - 1, f, i[n]), const(pat & ((1 << f) - 1), f))
                    l = tm.substitute([bad] + list(assume), m); lits = [tm.eq(i[n], t) for n, t in m.items()]
                    v2, mo2, dt = solve.check(l[0], l[1:] + lits, timeout=max(1, min(8 if tier == 'quick' else 20, deadline - time.time())))
                    tried += 1
                    if v2 == 'unsat': dec += 1
                    if v2 == 'sat':
                        R['queries'].append((label + ' [sub-family]', v2, round(dt, 3)))
                        R['undecided'] = [u for u in R['undecided'] if u[0] != label]
                        return v2, mo2
                R['undecided'] = [(a, b + '; %d of %d sub-families decided' % (dec, tried)) if a == label else (a, b) for a, b in R['undecided']]
                return v, mo
            def by_recurrence(label, bad, ass):
                t1 = time.time(); tm.COARSE = True
                try:
                    i2 = {n: (const(j.fixed[n], w) if n in j.fixed else tm.var(n + "'", w)) for n, w in j.ins}
                    e2 = symex.Engine(llir.Module(j.g.ll))
                    if j.hooks: j.hooks(e2, i2)
                    o2, _ = symex.run_entry(e2, j.entry, [zext(i2[n], 128) for n, w in j.ins], j.nout)
                    r = j.recur({n: n + "'" for n in i2})
                    o3 = tm.substitute([o2[0]], r['map'])[0]
                    log = []
                    n, dt = recur.prove(lambda o, N, st: r['bad'](o, N, st), o3, r['sx'], r['sy'], r['x'], r['y'], min(deadline, time.time() + (150 if tier == 'quick' else 400)), log)
                    tm.COARSE = False
                    R['queries'].append((label + ' [finite nonzero operands, by induction over the %d partial remainders: %d queries]' % (len(log[0][1]), n), 'unsat', round(dt, 3)))
                    R['recurrences'] = R.get('recurrences', []) + [log]
                except recur.Fail as e:
                    R['norecur'] = str(e); return False
                finally: tm.COARSE = False
                ok = True
                for nm, m in r['rest'](i):
                    l = tm.substitute([bad, ass if ass is not None else tm.TRUE] + pre, m)
                    v, mo = ask(label + ' [%s]' % nm, l[0], l[1:] + [tm.eq(i[n], t) for n, t in m.items()], record=True)
                    if v != 'unsat':
                        R['undecided'] = [u for u in R['undecided'] if u[0] != label + ' [%s]' % nm]
                        ok = False; break
                return ok
            if cube in (None, 0) and j.witness:
                for label, w in j.witness(i):
                    v, mo = ask('witness: ' + label, w, [j.pre(i)] if j.pre else [])
                    if v == 'unsat': R['err'] = 'vacuity witness unsatisfiable: ' + label
                    elif v == 'sat': R.setdefault('samples', []).append({'entry': j.entry, 'witness': label, 'inputs': {k: hex(x) for k, x in mo.items()}})
            if j.cut and cube in (None, 0):
                v, mo = ask('constraints on the abstracted products hold', NOT(AND(*[f(t) for t, f in j.cut(i)])), pre)
                if v == 'sat': R['err'] = 'cut constraint does not hold: %r' % mo
            queries = []
            if j.safety:
                obl = [(g, k, t) for (g, k, t) in eng.obl if not (j.ignore_obl and j.ignore_obl(k, t))]
                bad = OR(*[g for g, k, t in obl]) if obl else tm.FALSE
                queries.append(('no abort, assertion failure or undefined behaviour (%d program points)' % len(obl), bad, None, obl))
            if out is None:
                pass
            elif not j.safety_only:
                for q in j.spec(i, out):
                    queries.append((q[0], q[1], q[2] if len(q) > 2 else None, None))
            kpred = {k: f(i) for k, f in j.known.items() if k in active_known}
            R['decisions'] = len(queries)
            for label, bad, ass, obl in queries:
                if obl is None and j.recur and by_recurrence(label, bad, ass): continue
                asm = pre + ([ass] if ass is not None else [])
                excl = [NOT(p) for p in kpred.values()]
                v, mo = ask2(label, bad, asm + excl)
                if v == 'sat':
                    c = confirm(j, eng, i, mo, label, obl, scratch)
                    if c['confirmed']:
                        R['viol'].append(c)
                        if len(R['viol']) >= 2: break
                    else:
                        R['undecided'].append((label, 'counterexample did not replay: ' + c['why']))
                        R['unconfirmed'] = R.get('unconfirmed', []) + [c]
                for k, p in kpred.items():
                    v, mo = ask(label + ' [known finding %s]' % k, AND(bad, p), asm + cubelits)
                    if v == 'sat':
                        c = confirm(j, eng, i, mo, label, obl, scratch)
                        if c['confirmed']: R['known'].append((k, c))
            # translator validation: the terms against the natively compiled IR
            if cube in (None, 0) and out is not None:
                R['val'] = validate(j, eng, i, out, scratch)
    except (symex.Unsupported, symex.BoundHit) as e:
        R['undecided'].append(('encoding', '%s: %s' % (type(e).__name__, e)))
    except Exception as e:
        if type(e).__name__ == 'FPUnsupported': R['undecided'].append(('encoding', 'FP: %s' % e))
        elif out is NotYet or isinstance(e, (MemoryError, RecursionError)): R['undecided'].append(('encoding', traceback.format_exc()[-700:]))
        else: R['err'] = traceback.format_exc()[-1500:]
    R['stats'] = solve.stats
    R['wall'] = time.time() - t0
    return R

def spec_concrete(j, model, outs, label):
    i = {n: const(model.get(n, 0), w) for n, w in j.ins}
    o = [const(v, 128) for v in outs]
    for q in j.spec(i, o):
        if q[0] == label:
            v = tm.evaluate([q[1]], {})[0]
            a = tm.evaluate([q[2]], {})[0] if len(q) > 2 and q[2] is not None else 1
            if v and a: return True      # labels need not be unique
    return False

def confirm(j, eng, i, model, label, obl, scratch):
    model = dict(model)
    for n, w in j.ins:
        if n in j.fixed: model[n] = j.fixed[n]
        model.setdefault(n, 0)
    c = {'entry': j.entry, 'label': label, 'inputs': {n: hex(model[n]) for n, w in j.ins}, 'confirmed': False, 'why': ''}
    if j.pre and not tm.evaluate([j.pre({n: const(model[n], w) for n, w in j.ins})], {})[0]:
        c['why'] = 'precondition false on the model'; return c
    line = in_line(j, model)
    if obl is not None:
        pts = [(k, t) for g, k, t in obl if tm.evaluate([g], model)[0]]
        c['points'] = [list(p) for p in pts][:4]
        kinds = set(k for k, t in pts)
        exe = native(j.g, scratch, 'plain')
        if exe:
            rc, so, se = native_run(exe, [line])
            c['native_rc'] = rc; c['native_stderr'] = se[-400:]
            if rc in (-6, 134): c['confirmed'] = True; c['got'] = 'aborts: ' + se.strip()[-200:]; return c
        exe = native(j.g, scratch, 'san')
        if exe:
            rc, so, se = native_run(exe, [line])
            c['san_rc'] = rc; c['san_stderr'] = se[-600:]
            if rc != 0: c['confirmed'] = True; c['got'] = 'sanitizer: ' + se.strip()[:200]; return c
        c['why'] = 'no abort observed natively'
        return c
    exe = native(j.g, scratch, 'plain')
    if not exe: c['why'] = 'replay build failed'; return c
    rc, so, se = native_run(exe, [line])
    if rc != 0:
        c['why'] = 'replay ended with %d' % rc; c['native_stderr'] = se[-400:]
        return c
    outs = parse_out(so.strip('\n').split('\n')[0])
    c['outputs'] = [hex(x) for x in outs]
    if spec_concrete(j, model, outs, label): c['confirmed'] = True
    else: c['why'] = 'native outputs satisfy the specification'
    return c

def validate(j, eng, i, out, scratch):
    """compare the encoding with native execution of the same IR on random and edge inputs"""
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')) * 7919 + len(j.entry))
    exe = native(j.g, scratch, 'ir')
    if not exe: return {'n': 0, 'bad': 0}
    vs = []
    for k in range(24):
        mo = {}
        for n, w in j.ins:
            m = rnd.random()
            v = rnd.getrandbits(w)
            if m < 0.2: v = rnd.choice([0, (1 << w) - 1, 1, 1 << (w - 1)])
            elif m < 0.5: v = (v & ~(3 << max(0, w - 2)) | (1 << max(0, w - 2))) & ((1 << w) - 1)
            mo[n] = j.fixed.get(n, v)
        if k % 3 == 2 and len(j.ins) > 1 and j.ins[0][1] == j.ins[1][1] and j.ins[1][0] not in j.fixed:
            mo[j.ins[1][0]] = mo[j.ins[0][0]] ^ (1 << rnd.randrange(j.ins[0][1]))
        vs.append(mo)
    if j.pre:      # most random values miss a precondition: positive normal numbers, and small integers
        for k in range(24):
            mo = {}
            for n, w in j.ins:
                v = rnd.getrandbits(w)
                v = v & ((1 << max(0, w - 3)) - 1) | (2 << max(0, w - 3)) if k % 2 else v >> rnd.randrange(w)
                mo[n] = j.fixed.get(n, v & ((1 << w) - 1))
            vs.append(mo)
    pre = j.pre(i) if j.pre else tm.TRUE
    roots = [pre, OR(*[g for g, k, t in eng.obl]) if eng.obl else tm.FALSE] + out
    exp = []; lines = []
    for mo in vs:
        r = tm.evaluate(roots, mo)
        if r[1] or not r[0]: continue
        exp.append(r[2:]); lines.append(in_line(j, mo))
    if not lines: return {'n': 0, 'bad': 0}
    rc, so, se = native_run(exe, lines)
    got = [parse_out(l) for l in so.strip('\n').split('\n')] if so.strip() else []
    bad = sum(1 for a, b in zip(exp, got) if a != b) + abs(len(exp) - len(got))
    r = {'n': len(lines), 'bad': bad}
    if bad:
        for a, b, l in zip(exp, got, lines):
            if a != b: r['first'] = [l, [hex(x) for x in a], [hex(x) for x in b]]; break
        else: r['first'] = [se[-300:], rc]
    return r

# ---------------------------------------------------------------- scheduler
def _child(conn, fn, args):
    try:
        os.setpgid(0, 0)
    except Exception: pass
    try:
        r = fn(*args)
    except BaseException:
        r = {'err': traceback.format_exc()[-1500:]}
    try:
        conn.send(r); conn.close()
    finally:
        os._exit(0)

def known_active(prop):
    """names listed as open findings in known_findings.txt"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) name=(\S+) (.*)', l)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

def _run(prop, groups, tier, level, assumptions, bounds, notes, deadline, scratch, t0, seed, extra):
    ctx = mp.get_context('fork')
    known = known_active(prop)
    # tasks: ('compile', g) then jobs of g
    compq = list(groups); jobq = []
    running = []   # (proc, conn, kind, payload)
    results = []; errs = []
    ncomp_fail = []; picks = 0
    def start(fn, args, kind, payload):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=_child, args=(b, fn, args)); p.start(); b.close()
        running.append((p, a, kind, payload, time.time()))
    viol = []
    stop = False
    while (compq or jobq or running):
        if stop and not running: break
        while len(running) < NCPU and (compq or jobq) and not stop:
            if compq and (not jobq or len(compq) > 0 and sum(1 for r in running if r[2] == 'c') < 4):
                g = compq.pop(0)
                start(compile_group, (g, scratch), 'c', g)
            else:
                # dearest first keeps the total short; every third pick is the cheapest, so that none of those is left when the budget ends
                jobq.sort(key=lambda x: -x[0].cost)
                picks += 1
                j, cube = jobq.pop(-1 if picks % 3 == 0 else 0)
                start(job_main, (j, cube, deadline, scratch, known, tier), 'j', (j, cube))
        conns = [r[1] for r in running]
        ready = mp.connection.wait(conns, timeout=1.0)
        now = time.time()
        for r in list(running):
            p, c, kind, payload, ts = r
            done = None
            if c in ready:
                try: done = c.recv()
                except EOFError: done = {'undecided': [('job', 'worker process died')]} if kind == 'j' else (None, 'compiler worker died')
            elif now > deadline + 20:
                try: os.killpg(p.pid, signal.SIGKILL)
                except Exception: p.kill()
                done = {'err': None, 'undecided': [('job', 'budget')], 'entry': payload[0].entry, 'cube': payload[1], 'queries': [], 'viol': [], 'known': [], 'funcs': {}, 'stats': None} if kind == 'j' else (None, 'budget')
            if done is None: continue
            running.remove(r)
            p.join(5)
            c.close()
            if kind == 'c':
                if isinstance(done, dict): done = (None, done.get('err'))
                payload.ll, payload.err = done
                if payload.ll is None: ncomp_fail.append((payload.name, payload.err)); continue
                payload.src = os.path.join(scratch, payload.name + '.cpp')
                if payload.err:
                    drop, why = payload.err
                    ncomp_fail.append((', '.join(drop), why))
                    payload.jobs = [j for j in payload.jobs if j.entry not in drop]
                    payload.code = open(payload.src).read()[len(PRELUDE):]
                for j in payload.jobs:
                    if j.cubes:
                        n = j.ncubes
                        for k in range(-1, n): jobq.append((j, k))
                    else: jobq.append((j, None))
            else:
                j, cube = payload
                done.setdefault('entry', j.entry); done.setdefault('cube', cube); done['config'] = j.config
                results.append(done)
                if done.get('viol'):
                    viol.append(done)
                    if len(viol) >= 3 and not os.environ.get('VP_ALL'): stop = True
        if stop:
            for r in running:
                try: os.killpg(r[0].pid, signal.SIGKILL)
                except Exception: r[0].kill()
            for r in running: r[0].join(5)
            break
    return report(prop, tier, seed, level, groups, results, ncomp_fail, assumptions, bounds, notes, t0, known, extra)

def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@') for n in names), capture_output=True, text=True)
        return p.stdout.split('\n')
    except Exception: return list(names)

def report(prop, tier, seed, level, groups, results, ncomp_fail, assumptions, bounds, notes, t0, known, extra):
    q = [x for r in results for x in r.get('queries', [])]
    und = [(r['entry'], r.get('cube'), a, b) for r in results for (a, b) in r.get('undecided', [])]
    errs = [(r['entry'], r['err']) for r in results if r.get('err')]
    viol = [c for r in results for c in r.get('viol', [])]
    kn = {}
    for r in results:
        for k, c in r.get('known', []): kn.setdefault(k, c)
    funcs = {}
    for r in results:
        for n, c in r.get('funcs', {}).items(): funcs[n] = funcs.get(n, 0) + c
    val = [r['val'] for r in results if r.get('val')]
    valbad = [(r['entry'], r['val']) for r in results if r.get('val') and r['val']['bad']]
    unsat = sum(1 for x in q if x[1] == 'unsat' and not x[0].startswith('witness'))
    wit = sum(1 for x in q if x[1] == 'sat' and x[0].startswith('witness'))
    st = [r['stats'] for r in results if r.get('stats')]
    names = sorted(funcs)
    dm = demangle(names)
    fn = sorted(set(re.sub(r'<.*', '', d.split('(')[0]) .strip().split(' ')[-1] for d in dm if 'thls' in d))
    samples = [s for r in results for s in r.get('samples', [])][:6]
    slow = sorted([(x[2], r['entry'], x[0], x[1]) for r in results for x in r.get('queries', [])], reverse=True)[:6]
    cov = {
        'states': sum(r.get('blocks', 0) for r in results),
        'transitions': sum(r.get('steps', 0) for r in results),
        'traces_validated_against_impl': sum(v['n'] for v in val) - sum(v['bad'] for v in val),
        'samples': samples or [{'query': list(x)} for x in q[:3]],
        'counts_mean': 'states: basic-block executions with symbolic (merged) state; transitions: IR instructions executed symbolically; traces_validated_against_impl: concrete inputs on which the encoding and the natively compiled IR agreed',
        'method': 'symbolic execution of LLVM IR generated from the current headers, bit-blasted, decided by a SAT solver for all input values of each listed instantiation',
        'bounds': bounds,
        'instantiations': sorted(set(r.get('config', r['entry']) for r in results)),
        'functions_encoded': fn,
        'ir_functions_encoded': len(funcs),
        'queries_discharged_unsat': unsat,
        'queries_total': len(q),
        'vacuity_witnesses_found': wit,
        'undecided': [list(map(str, u)) for u in und][:60],
        'undecided_count': len(und),
        'decided_by_recurrence': sum(len(r.get('recurrences', [])) for r in results), 'recurrence_not_applicable': sorted(set(r['norecur'] for r in results if r.get('norecur')))[:8],
        'harnesses_not_compiling': [list(x) for x in ncomp_fail][:10],
        'solver_s': round(sum(s['solver_s'] for s in st), 2),
        'cnf_clauses': sum(s['clauses'] for s in st), 'cnf_variables': sum(s['vars'] for s in st),
        'decided_by_simplification': sum(s['trivial'] for s in st),
        'slowest_queries': [list(x) for x in slow],
        'stubbed_calls': sorted(set(x for r in results for x in r.get('stubs', []))),
    }
    if extra: cov.update(extra)
    if notes: cov['notes'] = notes
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': list(assumptions),
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if kn: cov['known_findings'] = [{'name': k, 'case': c} for k, c in kn.items()]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for k in kn: print('KNOWN-FINDING: property=%s %s: %s e.g. %s %s' % (prop, k, known[k], kn[k]['entry'], kn[k]['inputs']))
    print('%s %s: %d instantiations, %d queries, %d unsat, %d witnesses, %d undecided, validated %d traces, solver %.1fs, wall %.1fs' % (
        prop, tier, len(cov['instantiations']), len(q), unsat, wit, len(und), cov['traces_validated_against_impl'], cov['solver_s'], ev['wall_s']))
    for u in und[:12]: print('  undecided:', *u)
    for n, e in ncomp_fail[:5]: print('  harness %s does not compile: %s' % (n, (e or '')[:600]))
    for e in valbad[:5]: print('  ENCODING MISMATCH', e)
    for e in errs[:5]: print('  ERROR', e[0], e[1])
    sys.stdout.flush()
    if viol:
        rd = os.path.join(VERIF, 'evidence', 'replays'); os.makedirs(rd, exist_ok=True)
        byg = {j.entry: g for g in groups for j in g.jobs}
        for c in viol[:(500 if os.environ.get('VP_ALL') else 5)]:
            g = byg[c['entry']]
            j = [x for x in g.jobs if x.entry == c['entry']][0]
            path = os.path.join(rd, '%s_%s.json' % (prop, c['entry']))
            with open(path, 'w') as f:
                json.dump({'property': prop, 'case': c, 'harness': PRELUDE + g.code, 'driver': driver_src(g.jobs), 'flags': g.flags,
                           'stdin': in_line(j, {k: int(v, 16) for k, v in c['inputs'].items()})}, f, indent=1)
            print('  counterexample: %s [%s] inputs %s outputs %s %s' % (c['entry'], c['label'], c['inputs'], c.get('outputs'), c.get('got', '')))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs: return 2
    for e, v in valbad: unsat -= sum(1 for r in results if r['entry'] == e for x in r.get('queries', []) if x[1] == 'unsat' and not x[0].startswith('witness'))
    if unsat == 0:
        print('nothing was decided'); return 2
    return 0
