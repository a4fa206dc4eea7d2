"""Writes MANIFEST.json from the checks present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8')]
NA = {}
na = os.path.join(V, 'tools', 'not_applicable.json')
if os.path.exists(na):
    NA = json.load(open(na))
checks, nas = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt run.py %s quick' % i,
            'thorough_cmd': 'python3-vt run.py %s thorough' % i,
            'technique': 'symbolic execution of the real Python/Cython sources with Z3; counterexamples replayed on the built package',
            'level': 'model_checking',
            'level_note': 'Every path of the encoded functions within the bounds listed per case in the evidence file is decided by Z3; '
                          'library modules (dartsclone, io, mmap, struct, re, csv, sortedcontainers) are models; sample paths are '
                          're-run on the real compiled code and compared; nothing is claimed outside the bounds.',
        })
    else:
        nas.append({'property': i, 'reason': NA.get(i, 'No check has been built for it yet.')})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': nas}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(nas), 'not applicable')
