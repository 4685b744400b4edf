"""Writes DESIGN.md: the fixed text below, and for each property what its check module, the property list, the findings and the planted bugs say."""
import glob
import importlib
import json
import os
import re
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from tools.props import P

HEAD = open('tools/design_head.md').read()
NOTES = {}
exec(open('tools/design_notes.py').read())

fixed = {}
for l in open('known_findings.txt'):
    m = re.match(r'(fixed|known): property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.setdefault(m.group(2), []).append(m.groups())
bugs = {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    bugs.setdefault(d['property'], []).append((f.split('/')[1], d))
try:
    caught = json.load(open('tools/caught.json'))
except OSError:
    caught = {}

out = [HEAD.rstrip('\n'), '', '## Properties', '']
for p in sorted(P, key=lambda p: p['id']):
    i = p['id']
    m = importlib.import_module('checks.' + i)
    subs = m.SUBS() if callable(m.SUBS) else m.SUBS
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '',
            '- Anchored in: ' + ', '.join(p['files']) + '.',
            '- Why the tests cannot settle it: ' + p['why'],
            '- Decided by: ' + p['technique'] + '.',
            '- Generated: ' + p['domain'] + '. Counting rule: ' + m.RULE + '.']
    o, lim = NOTES.get(i, ('', ''))
    if o:
        out.append('- Oracle: ' + o)
    out.append('- Relations (cases quick / thorough): ' + '; '.join('%s %d / %d' % (s.name, s.quick, s.thorough) for s in subs) + '.')
    out.append('- Assumed: ' + '; '.join(m.ASSUMPTIONS) + '.')
    if lim:
        out.append('- Not claimed: ' + lim)
    if i in fixed:
        out.append('- Genuine defects found: ' + ' '.join('(%s%s) %s.' % ('' if k == 'fixed' else 'known, ', h, t.strip().rstrip('.')) for k, _, h, t in fixed[i]))
    if i in bugs:
        out.append('- Planted: ' + '; '.join('`%s` (%s) %s' % (n, d['what_it_breaks'].rstrip('.'), caught.get(n, 'caught')) for n, d in bugs[i]) + '.')
    out.append('')
open('DESIGN.md', 'w').write('\n'.join(out))
