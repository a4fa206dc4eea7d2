"""Concrete runs of harnesses against the real, compiled package.

usage: /opt/venv/bin/python replay.py IMPL_DIR CHECKS_DIR   (jobs on stdin)
   or: /opt/venv/bin/python replay.py IMPL_DIR CHECKS_DIR REPLAY.json
A job is a JSON line {"check", "tier", "case", "inputs", "timeout"}; a result
is a JSON line {"outcome": ok|check|exception|timeout|crash|assume, ...}.
"""
import importlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))
TEXT = ((1, 0xD7FF), (0xE000, 0x10FFFF))
BMP = ((1, 0xD7FF), (0xE000, 0xFFFF))


class CheckFailed(BaseException):
    pass


class Assume(BaseException):
    pass


class RealS:
    symbolic = False
    ANY, TEXT, BMP = ANY, TEXT, BMP

    def __init__(self, inputs, scratch, known=(), finding=None):
        self.inputs = inputs
        self.scratch = scratch
        self.observed = []
        self.labels = {}
        self._known = set(known)
        self._finding = finding

    def _in(self, name, default):
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        return self._in(name, lo)

    def bool(self, name):
        return bool(self._in(name, False))

    def text(self, name, n, dom=TEXT):
        c = sorted(dom)[0] if isinstance(dom, str) else chr(tuple(dom)[0][0])
        return self._in(name, c * n)

    def char(self, name, dom=TEXT):
        return self.text(name, 1, dom)

    def choice(self, name, options):
        return list(options)[self._in(name, 0)]

    def subset(self, name, elems):
        return {e for e in elems if self.bool('%s.%s' % (name, getattr(e, 'name', e)))}

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def concrete(self, x):
        return x

    def codes(self, t):
        return [ord(c) for c in t]

    def same(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b) or isinstance(a, tuple) != isinstance(b, tuple):
                return False
            return all(self.same(x, y) for x, y in zip(a, b))
        return bool(a == b)

    def assume(self, c):
        if not c:
            raise Assume()

    def check(self, c, label):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not c:
            raise CheckFailed(label)

    def fail(self, label):
        raise CheckFailed(label)

    def reach(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def observe(self, name, value):
        self.observed.append((name, value))

    def exclude(self, finding, c):
        if finding in self._known and finding != self._finding:
            self.assume(not c)

    def load(self, name):
        return importlib.import_module(name)

    def memo(self, key, fn):
        return fn()

    def path(self, name):
        return os.path.join(self.scratch, name)

    def put(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            with open(p, 'w', encoding='utf-8', newline='') as f:
                f.write(data)
        elif isinstance(data, dict):
            with open(p, 'w', encoding='utf-8') as f:
                json.dump(data, f)
        else:
            with open(p, 'wb') as f:
                f.write(bytes(data))
        return p

    def get(self, name):
        with open(name if name.startswith('/') else self.path(name), 'rb') as f:
            return f.read()

    def exists(self, name):
        return os.path.exists(self.path(name))

    def inside(self, fn):
        kept = os.getcwd()
        os.chdir(self.scratch)
        try:
            return fn()
        finally:
            os.chdir(kept)

    def stream(self, text):
        return io.StringIO(text, newline=None)

    def patch_module(self, name, module):
        sys.modules[name] = module

    def open(self, path, mode='rb', **kw):
        return open(path, mode, **kw)


def jsonable(x):
    if isinstance(x, bytes):
        return {'bytes': x.hex()}
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return {'set': sorted(jsonable(i) for i in x)}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if x is None or isinstance(x, (bool, int, str, float)):
        return x
    return str(x)


def run_job(job, checks_dir):
    scratch = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        mod = importlib.import_module(job['check'])
        case = [c for c in mod.cases(job['tier']) if c['name'] == job['case']][0]
        S = RealS({k: _unjson(v) for k, v in job['inputs'].items()}, scratch, job.get('known', ()), case.get('finding'))
        os.chdir(scratch)
        try:
            case['fn'](S, **case.get('args', {}))
            out = {'outcome': 'ok'}
        except CheckFailed as e:
            out = {'outcome': 'check', 'detail': e.args[0]}
        except Assume:
            out = {'outcome': 'assume'}
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            out = {'outcome': 'exception', 'detail': '%s: %s (%s:%s)' % (
                type(e).__name__, str(e)[:300], os.path.basename(tb.filename), tb.lineno)}
        out['observed'] = [(n, jsonable(v)) for n, v in S.observed]
        out['labels'] = S.labels
        return out
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def _unjson(v):
    if isinstance(v, dict) and 'bytes' in v:
        return bytes.fromhex(v['bytes'])
    return v


def forked(job, checks_dir):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(job.get('timeout', 20)))
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            out = run_job(job, checks_dir)
        except BaseException:
            out = {'outcome': 'harness', 'detail': traceback.format_exc()}
        data = json.dumps(out).encode()
        while data:
            data = data[os.write(w, data):]
        os._exit(0)
    os.close(w)
    buf = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if buf:
        try:
            return json.loads(buf)
        except ValueError:
            pass
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
        return {'outcome': 'timeout', 'detail': 'still running after %s s' % job.get('timeout', 20)}
    return {'outcome': 'crash', 'detail': 'status %d' % st}


def main():
    impl, checks = sys.argv[1:3]
    sys.path.insert(0, checks)
    sys.path.insert(0, impl)
    import warnings
    warnings.simplefilter('ignore')
    import sudachipy
    if not os.path.abspath(sudachipy.__file__).startswith(os.path.abspath(impl) + os.sep):
        sys.exit('wrong package: %s' % sudachipy.__file__)
    import sudachipy.dictionary
    import sudachipy.morphemelist
    for m in [k for k in sys.modules if k.startswith('sudachipy')]:
        f = getattr(sys.modules[m], '__file__', None)
        if f and not os.path.abspath(f).startswith(os.path.abspath(impl) + os.sep):
            sys.exit('wrong module: %s' % f)
    if len(sys.argv) > 3:
        with open(sys.argv[3]) as f:
            job = json.load(f)
        print(json.dumps(forked(job, checks), ensure_ascii=True, indent=1))
        return
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        print(json.dumps(forked(json.loads(line), checks)), flush=True)


if __name__ == '__main__':
    main()
