"""Loads the modules of /repo, instrumented, into a private module table."""
import builtins
import importlib
import os
import sys
import time
import types

from . import core, rewrite, rt
from .models import btrees, mathmodel, persist, remodel, small

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, 'src')

_code = {}


def code_for(path, name):
    k = (path, name)
    if k not in _code:
        with open(path, encoding='utf-8') as f:
            src = f.read()
        _code[k] = rewrite.compile_module(src, path, name)
    return _code[k]


_btmods = None


def static_modules():
    global _btmods
    if _btmods is None:
        _btmods = btrees.make_package()
        pm = types.ModuleType('persistent')
        pm.Persistent = persist.Persistent
        pm.__path__ = []
        _btmods['persistent'] = pm
        pmm = types.ModuleType('persistent.mapping')
        _btmods['persistent.mapping'] = pmm
        _btmods['re'] = remodel.make()
        _btmods['math'] = mathmodel.make()
        _btmods.update(small.make())
    return dict(_btmods)


# modules whose execution is slow and whose globals are plain data: executed
# once per process, re-instantiated (copied) for every path
_heavy = {}
_PLAIN = (int, float, str, bytes, tuple, bool, type(None), types.ModuleType, remodel.Pattern)


class World:
    """one private instance of the package"""

    def __init__(self, okascore=None):
        self.mods = static_modules()
        z = types.ModuleType('zope')
        z.__path__ = [os.path.join(SRC, 'zope')]
        z.interface = self.mods['zope.interface']
        self.mods['zope'] = z
        self.okascore = okascore
        self.bi = dict(rt.BUILTINS)
        self.bi['__import__'] = self.imp
        self.bi['__name__'] = 'builtins'

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            base = pkg.split('.')
            base = base[:len(base) - level + 1]
            name = '.'.join(base + ([name] if name else []))
        if name == 'props':
            for f in fromlist:
                self.load('props.' + f)
            return self.mods['props']
        m = self.load(name)
        if fromlist:
            if hasattr(m, '__path__'):
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
            return m
        return self.load(name.partition('.')[0])

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        parent, _, tail = name.rpartition('.')
        if name == 'zope.index.text.okascore':
            self.load(parent)
            if self.okascore is None:
                raise ModuleNotFoundError('No module named %r' % name, name=name)
            m = self.okascore(self)
            self.mods[name] = m
            setattr(self.mods[parent], tail, m)
            return m
        if name == 'zope.index' or name.startswith('zope.index.'):
            pm = self.load(parent)
            if name in self.mods:       # loaded by its package
                return self.mods[name]
            m = self._load_repo(name)
            setattr(pm, tail, m)
            return m
        if name.startswith('props.h_'):
            # a harness used by another one
            pm = self.mods.setdefault('props', types.ModuleType('props'))
            pm.__path__ = []
            m = types.ModuleType(name)
            self.exec_into(m, os.path.join(VERIF, *name.split('.')) + '.py', name)
            setattr(pm, tail, m)
            return m
        if name.startswith('BTrees') or name.startswith('zope.') or name.startswith('persistent'):
            raise core.Unsupported('no model of module ' + name)
        m = importlib.import_module(name)
        self.mods[name] = m
        return m

    def _load_repo(self, name):
        path = os.path.join(SRC, *name.split('.'))
        m = types.ModuleType(name)
        if os.path.isdir(path):
            m.__path__ = [path]
            m.__package__ = name
            path = os.path.join(path, '__init__.py')
        else:
            m.__package__ = name.rpartition('.')[0]
            path += '.py'
        if not os.path.exists(path):
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        self.exec_into(m, path, name)
        return m

    def exec_into(self, m, path, name):
        m.__file__ = path
        m.__builtins__ = self.bi
        m.__dict__['_sx_'] = rt.SX
        self.mods[name] = m
        if name in _heavy:
            self._clone(m, _heavy[name])
            return
        t = time.perf_counter()
        try:
            exec(code_for(path, name), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if time.perf_counter() - t > 0.004 and self._clonable(m):
            h = types.ModuleType(name)
            h.__dict__.update(m.__dict__)
            # keep a pristine copy
            for k, v in list(h.__dict__.items()):
                h.__dict__[k] = self._copy(v)
            _heavy[name] = h

    @staticmethod
    def _copy(v):
        if type(v) is list:
            return list(v)
        if type(v) is rt.SymDict:
            r = v.copy()
            if len(v) > 1000:
                if v._tab is None:
                    v._tab = {}
                r._tab = v._tab
            return r
        if type(v) is rt.SymSet:
            return v.copy()
        if type(v) is small.LruFunction:
            return v.clone(v.__wrapped__)
        return v

    def _clonable(self, m):
        for k, v in m.__dict__.items():
            if k in ('__builtins__', '_sx_'):
                continue
            if isinstance(v, types.FunctionType) and v.__globals__ is m.__dict__:
                continue
            if isinstance(v, small.LruFunction) and isinstance(v.__wrapped__, types.FunctionType) \
                    and v.__wrapped__.__globals__ is m.__dict__:
                continue
            if isinstance(v, types.ModuleType) and v.__name__.startswith('zope'):
                return False
            if isinstance(v, _PLAIN):
                continue
            if type(v) is list and all(isinstance(x, _PLAIN) for x in v):
                continue
            if type(v) is rt.SymDict and all(isinstance(x, _PLAIN) for x in v.values()):
                continue
            return False
        return True

    def _clone(self, m, h):
        g = m.__dict__
        for k, v in h.__dict__.items():
            if k in ('__builtins__', '_sx_', '__name__', '__loader__', '__spec__'):
                continue
            w = v.__wrapped__ if isinstance(v, small.LruFunction) else v
            if isinstance(w, types.FunctionType):
                f = types.FunctionType(w.__code__, g, w.__name__, w.__defaults__, w.__closure__)
                f.__kwdefaults__ = w.__kwdefaults__
                v = f if w is v else v.clone(f)
            else:
                v = self._copy(v)
            g[k] = v
        g['__builtins__'] = self.bi

    def harness(self, path, name):
        """load a harness file, instrumented, into this world"""
        m = types.ModuleType(name)
        self.exec_into(m, path, name)
        return m
