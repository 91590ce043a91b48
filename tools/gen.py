#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py (one place to keep them in step)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
INC = 'include/thls/tops/'
def path(f): return f if '/' in f and f.split('/')[0] in ('include', 'src') else INC + f
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in table.PROPS:
        assert len(p['title']) <= 80, p['id']
        files = sorted(set(path(w) for n, w in p['mech']))
        for x in files: assert os.path.exists(os.path.join(REPO, x)), x
        o = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs', 'configurations']), 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': files, 'mechanism': [{'name': n, 'where': path(w)} for n, w in p['mech']]}}
        if 'observe' in p: o['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(o) + '\n')
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': [], 'not_applicable': [], 'notes': table.NOTES}
for p in table.PROPS:
    if p.get('na'): m['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
    if not os.path.exists(os.path.join(V, 'props', p['id'] + '.py')): 
        m['not_applicable'].append({'property': p['id'], 'reason': 'check not built yet'}); print('no check yet', p['id']); continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt props/%s.py --tier quick' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt props/%s.py --tier thorough' % p['id'],
        'technique': 'symbolic execution of the LLVM IR of the real code, ' + p.get('tech', 'SAT-decided equivalence with a reference semantics'),
        'level': 'model_checking', 'level_note': p['level'] + ' ' + table.TRUST})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
