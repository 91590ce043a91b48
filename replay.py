#!/usr/bin/env python3
"""Re-runs recorded counterexamples on the real code of the current tree, without any solver:

    replay.py evidence/replays/C03_mul_4_3_3_3.json ...

The recorded harness is compiled with g++ against /repo/include, run on the recorded operands, and the outputs are
judged by the property's own reference semantics (evaluated on those concrete values).
Exit 1 when a violation is reproduced, 0 when none is."""
import sys, os, json, subprocess, tempfile, shutil, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
for d in ('engine', 'props'): sys.path.insert(0, os.path.join(HERE, d))
import fw

def find_job(prop, entry):
    mod = importlib.import_module(prop)
    for tier in ('quick', 'thorough'):
        for g in mod.build(tier):
            for j in g.jobs:
                if j.entry == entry: return j

def replay(path):
    d = json.load(open(path)); c = d['case']
    tmp = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        h, v, e = (os.path.join(tmp, n) for n in ('h.cpp', 'd.cpp', 'x'))
        open(h, 'w').write(d['harness']); open(v, 'w').write(d['driver'])
        san = 'no abort' in c['label']
        cmd = (['clang++', '-O1', '-g', '-fsanitize=undefined,address', '-fno-sanitize-recover=all'] if san else ['g++', '-O1']) + fw.CXX + d['flags'] + [h, v, '-o', e]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: print('%s: does not compile on this tree: %s' % (path, p.stderr[:300])); return False
        rc, so, se = fw.native_run(e, [d['stdin']])
        what = '%s %s, %s, inputs %s' % (d['property'], c['entry'], c['label'], c['inputs'])
        if rc: print('%s: program ends with %d: %s' % (what, rc, se.strip()[:300])); return True
        if san: print(what + ': runs to completion'); return False
        outs = fw.parse_out(so.strip('\n').split('\n')[0])
        j = find_job(d['property'], c['entry'])
        bad = fw.spec_concrete(j, {k: int(x, 16) for k, x in c['inputs'].items()}, outs, c['label'])
        print('%s: outputs %s: %s' % (what, [hex(x) for x in outs], 'VIOLATED' if bad else 'holds')); return bad
    finally: shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(1 if [1 for p in sys.argv[1:] if replay(p)] else 0)
