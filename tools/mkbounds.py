"""Writes BOUNDS.md: the cases of every check with what they range over."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
sys.dont_write_bytecode = True
out = ['# Bounds', '', 'Every case of every check and what it ranges over (tools/mkbounds.py writes this file from the checks).',
       'Cases marked T run in the thorough tier only; the evidence files tell which were explored completely.', '']
for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(l)
    m = importlib.import_module(p['id'].lower())
    q = {c['name'] for c in m.cases('quick')}
    out += ['## %s %s' % (p['id'], p['title']), '']
    for a in getattr(m, 'ASSUMPTIONS', ()):
        out.append('Assumed: %s.' % a)
    if getattr(m, 'ASSUMPTIONS', ()):
        out.append('')
    for c in m.cases('thorough'):
        out.append('- %s`%s`: %s' % ('' if c['name'] in q else '(T) ', c['name'], c['bound']))
    out.append('')
open(os.path.join(V, 'BOUNDS.md'), 'w', encoding='utf-8').write('\n'.join(out))
