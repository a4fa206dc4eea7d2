"""try.py DEFS.py OUT [id...]: tests and the check of its property on each
candidate (edits in scratch copies; nothing is kept)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
defs = runpy.run_path(sys.argv[1])['BUGS']
out = open(sys.argv[2], 'a')
only = sys.argv[3:]


def run(b):
    t = tempfile.mkdtemp(prefix='try.', dir='/tmp')
    try:
        r = os.path.join(t, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', r])
        for f, old, new in b['edits']:
            p = os.path.join(r, f)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return dict(id=b['id'], error='%s: %d matches' % (f, s.count(old)))
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        if any(f.endswith(('.pyx', '.pxd')) for f, _, _ in b['edits']):
            subprocess.call('rm -f sudachipy/*.c sudachipy/*.so; CFLAGS="-O0 -w" /opt/venv/bin/python setup.py build_ext --inplace >%s/build.log 2>&1' % t, shell=True, cwd=r)
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
        p = subprocess.run('. /opt/vp/env.sh; cd %s; PYTHONPATH=%s timeout 200 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -1' % (r, r), shell=True, env=env, cwd=r,
                           capture_output=True, text=True, executable='/bin/bash')
        res = dict(id=b['id'], property=b['property'], tests=p.stdout.strip(), checks={})
        for c in b['property'].split():
            q = subprocess.run(['timeout', '900', 'nice', 'python3-vt', '/verif/run.py', c, 'quick', '--no-evidence', '--jobs', '4'], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
            res['checks'][c] = q.returncode
            if q.returncode not in (0, 1):
                res['out'] = (q.stdout + q.stderr)[-600:]
        return res
    except Exception as e:
        return dict(id=b['id'], error=repr(e))
    finally:
        shutil.rmtree(t, ignore_errors=True)


with ThreadPoolExecutor(2) as ex:
    for res in ex.map(run, [b for b in defs if not only or b['id'] in only]):
        print(json.dumps(res, ensure_ascii=False), flush=True)
        out.write(json.dumps(res, ensure_ascii=False) + '\n')
        out.flush()
