#!/usr/bin/env python3
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import P

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['domain']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                         'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                         'observe_at': list(p['observe']), 'hook_needed': None}}
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 vt/build.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P],
     'not_applicable': [],
     'notes': 'No hooks in /repo: the harness compiles the unmodified sources into an AddressSanitizer library. See DESIGN.md.'}
try:
    from props import NA
    m['not_applicable'] = [{'property': a, 'reason': b} for a, b in NA]
except ImportError:
    pass
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), s)
print(len(P), 'properties')
