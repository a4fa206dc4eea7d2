"""Exhaustive parallel exploration of the cases of a check."""
import gc
import importlib
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import sys
import time
import traceback
import types

import z3

from . import api, core, loader, models, rt, cyrt, seqs, transform

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_check(cid):
    """checks/cNN.py, instrumented."""
    name = cid.lower()
    path = os.path.join(VERIF, 'checks', name + '.py')
    return load_harness('checks_' + name, path)


def load_harness(name, path):
    with open(path, encoding='utf-8') as f:
        src = f.read()
    m = types.ModuleType(name)
    m.__file__ = path
    d = m.__dict__
    b = dict(loader._BUILTINS)

    def imp(n, g=None, l=None, fromlist=(), level=0):
        if n == 'common':
            k = 'verif_common'
            if k not in sys.modules:
                sys.modules[k] = load_harness(k, os.path.join(os.path.dirname(path), 'common.py'))
            return sys.modules[k]
        return loader._import(n, g, l, fromlist, level)
    b['__import__'] = imp
    d['__builtins__'] = b
    d['__rt__'] = rt
    d['__cy__'] = cyrt
    exec(transform.compile_source(src, path, '~' + name), d)
    return m


def fresh_path():
    core.E.reset_path()
    models.FS.reset()
    models.logging.reset()
    loader.reset()


def run_path(case, known):
    """One execution; returns (status, detail)."""
    E = core.E
    fresh_path()
    S = api.SymS(known, case.get('finding'))
    try:
        case['fn'](S, **case.get('args', {}))
        if E.pos < len(E.trail):
            raise core.Nondeterminism('path ended early (%d < %d)' % (E.pos, len(E.trail)))
        E.close_path()
        return 'ok', None
    except core.PathEnd:
        return 'end', None
    except core.Violation as v:
        return 'violation', v.label
    except core.StepLimit:
        return 'steps', 'does not terminate'
    except core.Inconclusive as e:
        return 'cut', 'solver: %s' % e
    except core.Unsupported as e:
        return 'cut', 'not modelled: %s' % e
    except core.Nondeterminism as e:
        return 'nondet', str(e)
    except z3.Z3Exception as e:
        return 'cut', 'solver: %s' % e
    except RecursionError:
        return 'violation', 'unexpected RecursionError'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/symex/' not in f.filename]
        f = where[-1] if where else tb[-1]
        return 'violation', 'unexpected %s: %s (%s:%s)' % (type(e).__name__, _msg(e), os.path.basename(f.filename), f.lineno)


def _msg(e):
    try:
        return ' '.join(str(a) for a in e.args)[:200]
    except BaseException:
        return '?'


def _values(label=None):
    E = core.E
    try:
        m = E.get_model()
        iv = E.input_values(m)
        obs = [(n, jsonable(core.conc(v, m))) for n, v in E.observed]
        return {k: jsonable(v) for k, v in iv.items()}, obs
    except (core.Control, z3.Z3Exception):
        return None, None


def jsonable(x):
    if isinstance(x, bytes):
        return {'bytes': x.hex()}
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return {'set': sorted(jsonable(i) for i in x)}
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if x is None or isinstance(x, (bool, int, str, float)):
        return x
    return str(x)


def explore_slice(case, prefix, known, seconds, rng, want_samples):
    E = core.E
    q0, s0, n0, b0 = E.queries, E.solver_s, E.nodes, E.branches
    E.functions = set()
    E.partial = set()
    E.steps_limit = case.get('steps', 2_000_000)
    out = {'paths': 0, 'ended': 0, 'cut': [], 'violations': [], 'labels': {}, 'samples': [], 'pending': [],
           'errors': []}
    E.start(prefix)
    t0 = time.time()
    more = True
    while more:
        st, det = run_path(case, known)
        if st == 'ok':
            out['paths'] += 1
            for k, v in E.labels.items():
                out['labels'][k] = out['labels'].get(k, 0) + v
            if len(out['samples']) < want_samples or rng.random() < 0.002:
                iv, obs = _values()
                if iv is not None:
                    out['samples'].append((iv, obs))
        elif st == 'end':
            out['ended'] += 1
        elif st in ('violation', 'steps'):
            out['paths'] += 1
            for k, v in E.labels.items():
                out['labels'][k] = out['labels'].get(k, 0) + v
            iv, obs = _values()
            if iv is None:
                out['cut'].append((det, None))
            else:
                out['violations'].append((det, iv))
                if len(out['violations']) >= 3:
                    E.split(10 ** 9)
                    break
        elif st == 'cut':
            iv, _ = _values()
            out['cut'].append((det, iv))
        else:
            out['errors'].append(det)
            break
        more = E.backtrack()
        if more and time.time() - t0 > seconds:
            out['pending'] = E.split(10 ** 9)
            out['pending'].append([(t[0], t[2]) for t in E.trail])
            break
    out['queries'] = E.queries - q0
    out['solver_s'] = E.solver_s - s0
    out['nodes'] = E.nodes - n0
    out['branches'] = E.branches - b0
    out['functions'] = E.functions
    out['partial'] = E.partial
    out['secs'] = time.time() - t0
    return out


def _worker(conn, check, tier, known, seed, finding_cases):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(6000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    sys.unraisablehook = lambda *a: None

    def body():
        cases = check.cases(tier)
        rng = random.Random(seed)
        while True:
            try:
                msg = conn.recv()
            except EOFError:
                return
            if msg is None:
                return
            ci, prefix, seconds, want = msg
            try:
                out = explore_slice(cases[ci], prefix, known, seconds, rng, want)
            except BaseException:
                out = {'crash': traceback.format_exc()}
            conn.send((ci, out))
    t = threading.Thread(target=body)
    t.start()
    t.join()
    os._exit(0)


class Result:
    def __init__(self, cases):
        self.cases = [dict(name=c['name'], bound=c.get('bound', ''), paths=0, ended=0, cut=[], labels={}, complete=False,
                           queries=0, solver_s=0.0, nodes=0, branches=0, slices=0, secs=0.0, pending=0) for c in cases]
        self.functions = set()
        self.partial = set()
        self.samples = []         # (case index, inputs, observed)
        self.errors = []
        self.unreproduced = []
        self.tried = 0


def explore(check, tier, known, seed, budget, on_violation, on_cut, jobs=8, slice_s=3.0, only=None):
    """Explore all cases; on_violation(ci, label, inputs) -> True to stop."""
    cases = check.cases(tier)
    res = Result(cases)
    ctx = multiprocessing.get_context('fork')
    gc.freeze()
    workers = []
    for w in range(jobs):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, check, tier, known, seed + w, None), daemon=True)
        p.start()
        b.close()
        workers.append([p, a, None])
    sel = [i for i in range(len(cases)) if only is None or only in cases[i]['name']]
    queues = {i: [[]] for i in sel}
    running = {i: 0 for i in sel}
    stopped = set()
    start = time.time()
    stop = False
    turn = 0
    order = list(sel)
    try:
        while not stop:
            # hand out work, round robin over the cases
            left = budget - (time.time() - start)
            if left > 0:
                for w in workers:
                    if w[2] is None:
                        for k in range(len(order)):
                            ci = order[(turn + k) % len(order)]
                            if queues[ci] and ci not in stopped:
                                prefix = queues[ci].pop()
                                turn = (turn + k + 1) % len(order)
                                want = 2 if res.cases[ci]['slices'] < 4 else 0
                                # the first look at a case is short so that it is spread soon
                                secs = 0.5 if res.cases[ci]['slices'] < 2 else slice_s
                                w[1].send((ci, prefix, min(secs, max(left, 0.1)), want))
                                w[2] = ci
                                running[ci] += 1
                                res.cases[ci]['slices'] += 1
                                break
            busy = [w for w in workers if w[2] is not None]
            if not busy:
                break
            ready = multiprocessing.connection.wait([w[1] for w in busy] + [w[0].sentinel for w in busy], timeout=5)
            for w in busy:
                dead = False
                if w[1] in ready:
                    try:
                        ci, out = w[1].recv()
                    except (EOFError, ConnectionResetError):
                        dead = True
                elif w[0].sentinel in ready:
                    dead = True
                else:
                    if left < -60:
                        res.errors.append('worker stuck in case %s' % cases[w[2]]['name'])
                        stop = True
                    continue
                if dead:
                    ci = w[2]
                    res.errors.append('worker died in case %s' % cases[ci]['name'])
                    running[ci] -= 1
                    w[2] = None
                    stop = True
                    continue
                w[2] = None
                running[ci] -= 1
                c = res.cases[ci]
                if 'crash' in out:
                    res.errors.append('%s: %s' % (cases[ci]['name'], out['crash']))
                    stop = True
                    continue
                for k in ('paths', 'ended', 'queries', 'solver_s', 'nodes', 'branches', 'secs'):
                    c[k] += out[k]
                for k, v in out['labels'].items():
                    c['labels'][k] = c['labels'].get(k, 0) + v
                res.functions |= out['functions']
                res.partial |= {'%s: %s' % (c['name'], p) for p in out['partial']}
                for iv, obs in out['samples']:
                    res.samples.append((ci, iv, obs))
                for e in out['errors']:
                    res.errors.append('%s: nondeterminism: %s' % (c['name'], e))
                queues[ci].extend(out['pending'])
                for det, iv in out['cut']:
                    c['cut'].append(det)
                    if iv is not None and len(c['cut']) <= 40 and on_cut(ci, det, iv):
                        stop = True
                        break
                for det, iv in out['violations']:
                    if ci in stopped:
                        break
                    r = on_violation(ci, det, iv)
                    if r == 'stop':
                        stop = True
                        break
                    if r == 'case':
                        stopped.add(ci)
                if not stop and not queues[ci] and not running[ci] and ci not in stopped and not out['violations']:
                    c['complete'] = True
    finally:
        for p, a, busy in workers:
            try:
                if busy is None:
                    a.send(None)
                else:
                    p.kill()
            except Exception:
                pass
        for p, a, busy in workers:
            p.join(2)
            if p.is_alive():
                p.kill()
    for ci in sel:
        res.cases[ci]['pending'] = len(queues[ci])
    res.wall = time.time() - start
    return res
