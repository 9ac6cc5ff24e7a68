#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness case lines."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
NA = {}
p = os.path.join(H, 'tools', 'not_applicable.json')
if os.path.exists(p): NA = json.load(open(p))
claimed = {}
for f in sorted(os.listdir(os.path.join(H, 'harness'))):
    if f.startswith(('h_', 't_')) and f.endswith(('.c', '.cpp')):
        for c in check.parse_harness(os.path.join(H, 'harness', f))[0]:
            for q in c['props']: claimed.setdefault(q, []).append(c)
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    q = json.loads(l)['id']
    if q in claimed and q not in NA:
        thr = any('--preempt' in c.get('quick', '') + c.get('thorough', '') for c in claimed[q])
        checks.append({'property': q, 'quick_cmd': 'python3 check.py %s quick' % q, 'thorough_cmd': 'python3 check.py %s thorough' % q,
            'technique': 'symbolic execution of the compiled LLVM IR with z3 as the decision procedure' + (', all interleavings within a preemption bound' if thr else ''),
            'level': 'model_checking', 'level_note': '; '.join('%s: %s' % (c['name'], c.get('bounds', '')) for c in claimed[q])})
    else: na.append({'property': q, 'reason': NA.get(q, 'no check has been built for it yet')})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. known_findings.jsonl lists open and fixed findings.'}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
