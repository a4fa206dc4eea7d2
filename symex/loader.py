"""Loads instrumented copies of the modules of /repo/sudachipy.

The sources are read from the working tree on every run; the code objects are
cached per process and executed afresh for every path, so no state survives
from one path to the next.
"""
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import types

from . import core, cyfront, cyrt, models, rt, sre, transform

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'sudachipy'


class _Fake(types.ModuleType):
    pass


def _pkg_resources():
    m = _Fake('pkg_resources')

    class DistributionNotFound(Exception):
        pass

    def get_distribution(name):
        return types.SimpleNamespace(version='0.0.0')
    m.DistributionNotFound = DistributionNotFound
    m.get_distribution = get_distribution
    return m


class _Warnings(types.ModuleType):
    def warn(self, *a, **k):
        pass

    warn_explicit = warn
    simplefilter = filterwarnings = warn


def _importlib():
    import importlib.util

    def text(x):
        return x.concrete() if isinstance(x, core.Sym) else x
    u = models._proxy_module(importlib.util, find_spec=lambda name, package=None: importlib.util.find_spec(text(name), package))
    m = models._proxy_module(importlib, util=u, import_module=lambda name, package=None: importlib.import_module(text(name), package))
    return m, u


_IMPORTLIB = _importlib()
MODELS = {
    'importlib': _IMPORTLIB[0], 'importlib.util': _IMPORTLIB[1],
    'io': models.io, 'mmap': models.mmap, 'struct': models.struct, 'array': models.array, 're': sre.module,
    'functools': models.functools, 'collections': models.collections, 'sortedcontainers': models.sortedcontainers,
    'unicodedata': models.unicodedata, 'logging': models.logging, 'fileinput': models.fileinput, 'json': models.json, 'os': models.os,
    'os.path': models.path, 'posixpath': models.path, 'pathlib': models.pathlib, 'dartsclone': models.dartsclone,
    'csv': models.csv, 'pkg_resources': _pkg_resources(), 'warnings': _Warnings('warnings'),
}
EXTRA = {}     # set by harnesses for the current path (e.g. fileinput)

_real_import = builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split('.')[0]
        if name in EXTRA:
            return EXTRA[name]
        if name in MODELS and (fromlist or '.' not in name):
            return MODELS[name]
        if root in MODELS and root != 'collections':
            return MODELS[root]
    return _real_import(name, globals, locals, fromlist, level)


_BUILTINS = dict(vars(builtins))
_BUILTINS['__import__'] = _import

_code = {}


def find(name):
    """(path, is_package) of a module of the package, or None."""
    base = os.path.join(REPO, *name.split('.'))
    p = os.path.join(base, '__init__.py')
    if os.path.isfile(p):
        return p, True
    for ext in ('.py', '.pyx'):
        if os.path.isfile(base + ext):
            return base + ext, False
    if os.path.isdir(base):
        return base, True
    return None


def code_of(name):
    if name not in _code:
        path, pkg = find(name)
        if path.endswith('.pyx'):
            tree = cyfront.to_python(os.path.join(REPO, PKG), name)
            _code[name] = compile(transform.instrument(tree, name), path, 'exec', dont_inherit=True)
        elif os.path.isdir(path):
            _code[name] = compile('', path, 'exec')
        else:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            _code[name] = transform.compile_source(src, path, name)
    return _code[name]


class _Loader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        d = module.__dict__
        d['__builtins__'] = _BUILTINS
        d['__rt__'] = rt
        d['__cy__'] = cyrt
        exec(code_of(module.__name__), d)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + '.'):
            return None
        f = find(name)
        if f is None:
            return None
        spec = importlib.machinery.ModuleSpec(name, _Loader(), origin=f[0], is_package=f[1])
        spec.has_location = True
        if f[1]:
            spec.submodule_search_locations = [os.path.join(REPO, *name.split('.'))]
        return spec


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


def reset():
    """Forget every module of the package (a new path begins)."""
    for k in [k for k in sys.modules if k == PKG or k.startswith(PKG + '.') or k.startswith('sudachidict_')]:
        del sys.modules[k]
    EXTRA.clear()


def load(name):
    install()
    __import__(name)
    return sys.modules[name]
