"""Make /verif/seeded/<id> from a definition: python3 mk.py DEFS.py [id...]"""
import json, os, shutil, subprocess, sys, tempfile, runpy
here = os.path.dirname(os.path.abspath(__file__))
defs = runpy.run_path(sys.argv[1])['BUGS']
for b in defs:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    d = os.path.join('/verif/seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory(dir='/tmp') as t:
        r = os.path.join(t, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        for f, old, new in b['edits']:
            p = os.path.join(r, f)
            s = open(p, encoding='utf-8').read()
            assert s.count(old) == 1, (b['id'], f, s.count(old))
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    shutil.copy(os.path.join(here, 'lib.py'), os.path.join(d, 'lib.py'))
    open(os.path.join(d, 'demo.py'), 'w', encoding='utf-8').write(b['demo'])
    open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$here PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 PYTHONUTF8=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
''')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1, ensure_ascii=False)
