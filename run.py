#!/usr/bin/env python3-vt
"""run.py C21 quick|thorough: decide one property.  See DESIGN.md."""
import argparse
import atexit
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


# --------------------------------------------------------- the compiled code --
class Impl:
    """A directory with the package, its extension modules up to date."""

    def __init__(self):
        self.dir = None
        self.error = None
        self.built = False
        self.procs = {}       # by hash seed, which decides the order of sets
        # in a process of its own: a thread would start processes while the
        # workers are forked, which would inherit (and keep) its pipes
        self.tmp = tempfile.mkdtemp(prefix='verif_impl_')
        atexit.register(_remove, self.tmp, os.getpid())
        self.thread = subprocess.Popen([sys.executable, os.path.abspath(__file__), '--prepare', self.tmp], stdin=subprocess.DEVNULL)

    def _env(self, seed=0):
        env = dict(os.environ, PYTHONHASHSEED=str(seed), SETUPTOOLS_SCM_PRETEND_VERSION='0.5.4', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONUTF8='1', PYTHONWARNINGS='ignore')
        env.pop('PYTHONPATH', None)
        return env

    def _fresh(self):
        """Are the extension modules in the tree those of its sources?

        The stamp written by build.sh is compared with a hash of the present
        inputs computed in the same way."""
        stamp = os.path.join(REPO, 'build', '.inputs.sha256')
        if not os.path.exists(stamp):
            return False
        try:
            want = open(stamp).read().split()[0]
        except Exception:
            return False
        got = inputs_hash()
        if got != want:
            return False
        for d, _, fs in os.walk(os.path.join(REPO, 'sudachipy')):
            for f in fs:
                if f.endswith('.pyx'):
                    base = f[:-4]
                    if not any(x.startswith(base + '.') and x.endswith('.so') for x in os.listdir(d)):
                        return False
        return True

    def _prepare(self):
        try:
            if self._fresh():
                self.dir = REPO
                return
            dst = os.path.join(self.tmp, 'impl')
            os.mkdir(dst)
            for f in os.listdir(REPO):
                if f in ('.git', 'build', 'dist', 'tests', 'docs') or f.endswith('.egg-info'):
                    continue
                s = os.path.join(REPO, f)
                if os.path.isdir(s):
                    shutil.copytree(s, os.path.join(dst, f), symlinks=True,
                                    ignore=lambda d, ns: [n for n in ns if n.endswith(('.so', '.c', '.pyc')) or n == '__pycache__'])
                else:
                    shutil.copy2(s, os.path.join(dst, f))
            env = self._env()
            env['CFLAGS'] = '-O1 -w'
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace'], cwd=dst, env=env, capture_output=True, text=True,
                               timeout=600)
            if r.returncode:
                self.error = 'the extension modules do not build: %s' % (r.stdout + r.stderr)[-2000:]
                return
            self.built = True
            self.dir = dst
        except Exception as e:
            self.error = 'preparing the implementation: %r' % (e,)

    def start(self, seed=0):
        if self.dir is None and not self.error:
            self.thread.wait()
            try:
                with open(os.path.join(self.tmp, 'prepared.json')) as f:
                    self.dir, self.error, self.built = json.load(f)
            except Exception as e:
                self.error = 'preparing the implementation: %r' % (e,)
        if self.error:
            raise RuntimeError(self.error)
        p = self.procs.get(seed)
        if p is None or p.poll() is not None:
            p = self.procs[seed] = subprocess.Popen([PY, os.path.join(VERIF, 'symex', 'replay.py'), self.dir, os.path.join(VERIF, 'checks')],
                                                    stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=self._env(seed), cwd='/')
        return p

    def run(self, job, seed=0):
        p = self.start(seed)
        p.stdin.write(json.dumps(job) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise RuntimeError('the replay process ended')
        return json.loads(line)

    def close(self):
        for p in self.procs.values():
            if p.poll() is None:
                try:
                    p.stdin.close()
                    p.wait(5)
                except Exception:
                    p.kill()


def _remove(path, pid):
    if os.getpid() == pid:
        shutil.rmtree(path, True)


def prepare(tmp):
    impl = Impl.__new__(Impl)
    impl.tmp, impl.dir, impl.error, impl.built = tmp, None, None, False
    impl._prepare()
    with open(os.path.join(tmp, 'prepared.json'), 'w') as f:
        json.dump([impl.dir, impl.error, impl.built], f)
    return 0


def inputs_hash():
    """The hash build.sh keeps, computed by the same recipe."""
    sh = r'''
cd "$1" || exit 1
{
    find setup.py sudachipy -type f \( -name setup.py -o -name '*.pyx' -o -name '*.pxd' -o -name '*.pxi' -o -name '*.h' \) -print0 \
        | sort -z | xargs -0 sha256sum
    find sudachipy -type f -name '*.c' | sort | while read -r f; do [ -e "${f%.c}.pyx" ] || sha256sum "$f"; done
    "$2" -c 'import Cython, sys; print(Cython.__version__, sys.version)'
} | sha256sum
'''
    r = subprocess.run(['bash', '-c', sh, 'sh', REPO, PY], capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', PYTHONUTF8='1'))
    return (r.stdout.split() or [''])[0]


# ------------------------------------------------------------------ findings --
def known_findings(pid):
    """ids of the listed (not repaired) findings of a property."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    impl = Impl()
    from symex import explore
    try:
        check = explore.load_check(pid)
        cases = check.cases(tier)
    except Exception as e:
        import traceback
        traceback.print_exc()
        return 2
    names = [c['name'] for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    known = known_findings(pid)
    budget = a.budget or (getattr(check, 'BUDGET', {}).get(tier) or (240 if tier == 'quick' else 780))
    violations = []
    unrepro = []
    shown = set()
    found_known = set()
    stats = {'replayed': 0, 'cut_replayed': 0}
    counts = {}
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    errors = []

    def job(ci, iv):
        j = {'check': pid.lower(), 'tier': tier, 'case': names[ci], 'inputs': iv, 'known': sorted(known),
             'timeout': cases[ci].get('timeout', 20)}
        return j

    def report(ci, label, iv, res, seed=0):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (pid, len(violations) + 1))
        j = job(ci, iv)
        j.update(solver_verdict=label, real_outcome=res['outcome'], real_detail=res.get('detail'),
                 how_to='PYTHONHASHSEED=%d /opt/venv/bin/python /verif/symex/replay.py /repo /verif/checks %s' % (seed, path))
        with open(path, 'w') as f:
            json.dump(j, f, indent=1)
        violations.append({'case': names[ci], 'label': label, 'inputs': iv, 'real': res.get('detail'), 'replay': path})
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  case %s: %s; real code: %s %s' % (names[ci], label, res['outcome'], res.get('detail', '')))
        print('  inputs: %s' % json.dumps(iv, ensure_ascii=True)[:600])
        sys.stdout.flush()

    def failed(res):
        return res['outcome'] in ('check', 'exception', 'timeout', 'crash')

    def on_violation(ci, label, iv):
        res = impl.run(job(ci, iv))
        stats['replayed'] += 1
        seed = 0
        while not failed(res) and seed < 7:
            # where the order of a set matters
            seed += 1
            res = impl.run(job(ci, iv), seed)
        if failed(res):
            fid = cases[ci].get('finding')
            if fid in known:
                if fid not in found_known:
                    found_known.add(fid)
                    print('KNOWN-FINDING: property=%s %s' % (pid, known[fid]))
                return 'case'
            report(ci, label, iv, res, seed)
            return 'stop'
        unrepro.append({'case': names[ci], 'label': label, 'inputs': iv, 'real': res})
        n = counts[ci] = counts.get(ci, 0) + 1
        return 'case' if n >= 5 else None

    def on_cut(ci, det, iv):
        res = impl.run(job(ci, iv))
        stats['cut_replayed'] += 1
        if failed(res) and cases[ci].get('finding') not in known:
            report(ci, 'on a path that was cut (%s)' % det, iv, res)
            return True
        return False

    try:
        r = explore.explore(check, tier, set(known), seed, budget, on_violation, on_cut, jobs=a.jobs, only=a.case)
    except Exception as e:
        import traceback
        traceback.print_exc()
        return 2
    errors += r.errors

    # ---- the encoding is compared with the real code on sample paths
    rng = random.Random(seed)
    pool = {}
    for ci, iv, obs in r.samples:
        pool.setdefault(ci, []).append((iv, obs))
    want = 40 if tier == 'quick' else 200
    picks = []
    for ci in pool:
        rng.shuffle(pool[ci])
    while len(picks) < want and any(pool.values()):
        for ci in sorted(pool):
            if pool[ci] and len(picks) < want:
                picks.append((ci,) + pool[ci].pop())
    validated = 0
    mismatch = []
    if not violations:
        for ci, iv, obs in picks:
            try:
                res = impl.run(job(ci, iv))
            except RuntimeError as e:
                errors.append(str(e))
                break
            if failed(res):
                if cases[ci].get('finding') in known:
                    continue
                report(ci, 'holds in the encoding', iv, res)
                break
            o1 = json.loads(json.dumps(obs))
            if res['outcome'] != 'ok' or res['observed'] != o1:
                mismatch.append({'case': names[ci], 'inputs': iv, 'encoding': o1, 'real': res})
            else:
                validated += 1

    # ---- vacuity
    labels = {}
    vac = []
    for c in r.cases:
        for k, v in c['labels'].items():
            labels[k] = labels.get(k, 0) + v
        if a.case and a.case not in c['name']:
            continue
        if not violations and c['slices'] and not c['labels'] and not c['pending'] and \
                not next(x for x in cases if x['name'] == c['name']).get('finding'):
            vac.append('case %s never reaches an assertion' % c['name'])
    if not a.case and not violations:
        for l in getattr(check, 'REQUIRED', ()):
            if l not in labels:
                vac.append('label %r was never reached' % l)
    wall = time.time() - t0
    cut = [d for c in r.cases for d in c['cut']]
    complete = all(c['complete'] and not c['cut'] for c in r.cases) and not errors
    cov = {
        'states': sum(c['nodes'] for c in r.cases),
        'transitions': sum(c['branches'] for c in r.cases),
        'traces_validated_against_impl': validated,
        'samples': [{'case': names[ci], 'inputs': iv, 'observed': obs} for ci, iv, obs in picks[:6]],
        'paths': sum(c['paths'] for c in r.cases),
        'infeasible_paths_pruned': sum(c['ended'] for c in r.cases),
        'solver_queries': sum(c['queries'] for c in r.cases),
        'solver_seconds': round(sum(c['solver_s'] for c in r.cases), 2),
        'assertions_discharged': labels,
        'functions_encoded': sorted(f for f in r.functions if not f.startswith('~')),
        'cases': [{'name': c['name'], 'bound': c['bound'], 'paths': c['paths'], 'queries': c['queries'],
                   'solver_s': round(c['solver_s'], 2), 'explored_completely': c['complete'] and not c['cut'],
                   'paths_cut': len(c['cut']), 'unexplored_prefixes': c['pending']} for c in r.cases],
        'exhaustive': complete,
        'cut_reasons': sorted(set(cut))[:20],
        'partial': sorted(r.partial)[:20],
        'counterexamples_replayed': stats['replayed'],
        'cut_paths_replayed': stats['cut_replayed'],
        'extension_modules_rebuilt': impl.built,
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(check, 'ASSUMPTIONS', [])), 'wall_s': round(wall, 2), 'violations': len(violations)}
    if not a.no_evidence and not a.case:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
    impl.close()
    print('%s %s: %d cases, %d paths, %d queries, solver %.1f s, %d traces validated, complete=%s, wall %.1f s' % (
        pid, tier, len(r.cases), cov['paths'], cov['solver_queries'], cov['solver_seconds'], validated, complete, wall))
    if a.v or not complete:
        for c in r.cases:
            if a.v or not c['complete'] or c['cut']:
                print('  case %-40s paths %6d ended %5d cut %3d pending %3d complete=%s cpu %.1f solver %.1f' % (
                    c['name'], c['paths'], c['ended'], len(c['cut']), c['pending'], c['complete'], c['secs'], c['solver_s']))
        for d in sorted(set(cut))[:10]:
            print('  cut: %s' % d)
        for d in cov['partial']:
            print('  partial: %s' % d)
    if violations:
        return 1
    bad = False
    for u in unrepro[:5]:
        print('UNREPRODUCED counterexample (the encoding is wrong): %s' % json.dumps(u)[:1500])
        bad = True
    for m in mismatch[:5]:
        print('MISMATCH between encoding and real code: %s' % json.dumps(m)[:3000])
        bad = True
    for e in errors[:5]:
        print('ERROR: %s' % e)
        bad = True
    for v in vac:
        print('VACUOUS: %s' % v)
        bad = True
    return 2 if bad else 0


if __name__ == '__main__':
    sys.exit(prepare(sys.argv[2]) if sys.argv[1:2] == ['--prepare'] else main())
