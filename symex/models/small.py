"""Small models: array, collections, copy, sys, zope.interface."""
import array as _array
import collections as _collections
import collections.abc
import copy as _copy
import functools as _functools
import sys as _sys
import types

import z3

from .. import core, rt
from ..core import SInt, SBool, Sym, Unsupported

collections.abc.MutableMapping.register(rt.SymDict)
collections.abc.MutableSet.register(rt.SymSet)

LIMITS = {'b': (-128, 127), 'B': (0, 255), 'h': (-2 ** 15, 2 ** 15 - 1), 'H': (0, 2 ** 16 - 1),
          'i': (-2 ** 31, 2 ** 31 - 1), 'I': (0, 2 ** 32 - 1), 'l': (-2 ** 63, 2 ** 63 - 1), 'L': (0, 2 ** 64 - 1),
          'q': (-2 ** 63, 2 ** 63 - 1), 'Q': (0, 2 ** 64 - 1)}


class SymBytes:
    """bytes with symbolic elements"""

    def __init__(self, xs):
        self.xs = tuple(xs)

    def __len__(self):
        return len(self.xs)

    def __iter__(self):
        return iter(self.xs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkbytes(self.xs[i])
        return self.xs[i.__index__()]

    def __eq__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return False
        return len(o) == len(self) and all(bool(a == b) for a, b in zip(self, o))

    def __hash__(self):
        return hash(bytes(int(x) for x in self.xs))


def mkbytes(xs):
    xs = list(xs)
    if any(isinstance(x, Sym) for x in xs):
        return SymBytes(xs)
    return bytes(xs)


class Array:
    def __init__(self, typecode, init=()):
        self.typecode = typecode
        if typecode not in LIMITS:
            raise Unsupported('array type')
        self.itemsize = _array.array(typecode).itemsize
        self._x = []
        if isinstance(init, (bytes, bytearray, SymBytes)):
            if self.itemsize != 1:
                raise Unsupported('array from bytes')
            self._x = list(init)
        else:
            for v in init:
                self.append(v)

    def _v(self, v):
        lo, hi = LIMITS[self.typecode]
        if isinstance(v, SBool):
            v = SInt(core.as_int(v))
        if isinstance(v, SInt):
            if core.CUR.branch(z3.Or(v.e < lo, v.e > hi)):
                raise OverflowError('value out of range')
            return v
        if not isinstance(v, int):
            raise TypeError('an integer is required')
        if not lo <= v <= hi:
            raise OverflowError('value out of range')
        return int(v)

    def append(self, v):
        self._x.append(self._v(v))

    def extend(self, it):
        for v in it:
            self.append(v)

    def __len__(self):
        return len(self._x)

    def __iter__(self):
        return iter(self._x)

    def _i(self, i):
        i = i.__index__()
        if not -len(self._x) <= i < len(self._x):
            raise IndexError('array index out of range')
        return i

    def __getitem__(self, i):
        if isinstance(i, slice):
            return Array(self.typecode, self._x[i])
        return self._x[self._i(i)]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('array slice assignment')
        i = self._i(i)
        self._x[i] = self._v(v)

    def tobytes(self):
        if self.itemsize != 1:
            raise Unsupported('tobytes')
        return mkbytes(x & 255 for x in self._x)

    def frombytes(self, b):
        if self.itemsize != 1:
            raise Unsupported('frombytes')
        self._x.extend(b)

    def tolist(self):
        return list(self._x)

    def pop(self, i=-1):
        return self._x.pop(i)

    def __eq__(self, o):
        return isinstance(o, Array) and self._x == o._x


def deepcopy(x, memo=None):
    from . import persist

    def f(p):
        return _dp(p)
    seen = {}

    def _dp(p):
        if id(p) in seen:
            return seen[id(p)][0]
        r = type(p).__new__(type(p))
        seen[id(p)] = (r, p)
        r.__setstate__(persist._walk(p.__getstate__(), f, {}))
        return r
    return persist._walk(x, f, {})


def copy(x):
    if isinstance(x, (Sym, Array)):
        return x if isinstance(x, Sym) else Array(x.typecode, x._x)
    if isinstance(x, (rt.SymDict, rt.SymSet)):
        return x.copy()
    return _copy.copy(x)


# ------------------------------------------------------------- functools

def _hashable(x):
    if isinstance(x, Sym):
        return
    if type(x) is tuple:
        for y in x:
            _hashable(y)
        return
    hash(x)


def _symbolic(x):
    return isinstance(x, Sym) or type(x) is tuple and any(_symbolic(y) for y in x)


class LruFunction:
    """functools.lru_cache(): symbolic arguments are compared, not hashed"""

    def __init__(self, f, maxsize=None, typed=False):
        self.__wrapped__ = f
        self.maxsize = maxsize
        self.typed = typed
        _functools.update_wrapper(self, f)
        self.cache_clear()

    def clone(self, f):
        r = LruFunction(f, self.maxsize, self.typed)
        r._known, r._sym = dict(self._known), list(self._sym)
        return r

    def cache_clear(self):
        self._known, self._sym = {}, []
        self._hits = self._misses = 0

    def cache_info(self):
        return self._hits, self._misses, self.maxsize, len(self._known) + len(self._sym)

    def cache_parameters(self):
        return {'maxsize': self.maxsize, 'typed': self.typed}

    def __get__(self, o, cls=None):
        return self if o is None else _functools.partial(self, o)

    def __call__(self, *args, **kw):
        key = args + tuple(kw.items())
        if self.typed:
            key += tuple(rt.sx_type(x) for x in args)
        _hashable(key)
        sym = _symbolic(key)
        if not sym and key in self._known:
            self._hits += 1
            r = self._known.pop(key)        # most recently used
            self._known[key] = r
            return r
        for pair in self._sym:
            if rt.same(pair[0], key):
                self._hits += 1
                return pair[1]
        if sym:
            for k, v in self._known.items():
                if len(k) == len(key) and rt.same(k, key):
                    self._hits += 1
                    return v
        self._misses += 1
        r = self.__wrapped__(*args, **kw)
        if self.maxsize == 0:
            return r
        if self.maxsize is not None and len(self._known) + len(self._sym) >= self.maxsize:
            if self._sym:
                raise Unsupported('a full lru_cache with symbolic arguments')
            del self._known[next(iter(self._known))]
        if sym:
            self._sym.append((key, r))
        else:
            self._known[key] = r
        return r


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return LruFunction(maxsize, 128, typed)
    return lambda f: LruFunction(f, maxsize, typed)


def make():
    mods = {}
    m = types.ModuleType('array')
    m.array = m.ArrayType = Array
    mods['array'] = m
    m = types.ModuleType('collections')
    m.__dict__.update({k: v for k, v in _collections.__dict__.items() if not k.startswith('__')})
    m.defaultdict, m.Counter, m.OrderedDict = rt.DefaultDict, rt.Counter, rt.SymDict
    m.abc = collections.abc
    m.__path__ = []
    mods['collections'] = m
    mods['collections.abc'] = collections.abc
    m = types.ModuleType('functools')
    m.__dict__.update({k: v for k, v in _functools.__dict__.items() if not k.startswith('__')})
    m.lru_cache = lru_cache
    m.cache = lambda f: LruFunction(f)
    mods['functools'] = m
    m = types.ModuleType('copy')
    m.__dict__.update({k: v for k, v in _copy.__dict__.items() if not k.startswith('__')})
    m.deepcopy, m.copy = deepcopy, copy
    mods['copy'] = m
    m = types.ModuleType('sys')
    m.__dict__.update({k: v for k, v in _sys.__dict__.items() if not k.startswith('__')})
    m.intern = lambda s: s if isinstance(s, Sym) else _sys.intern(s)
    mods['sys'] = m
    zi = types.ModuleType('zope.interface')

    class Interface:
        @classmethod
        def providedBy(cls, o):
            return any(cls in getattr(c, '__sx_impl__', ()) for c in type(o).__mro__)

        @classmethod
        def implementedBy(cls, c):
            return any(cls in getattr(d, '__sx_impl__', ()) for d in c.__mro__)

    def implementer(*ifs):
        def deco(c):
            try:
                c.__sx_impl__ = tuple(ifs) + tuple(getattr(c, '__sx_impl__', ()))
            except (AttributeError, TypeError):
                pass
            return c
        return deco
    zi.Interface = Interface
    zi.Attribute = lambda *a, **k: None
    zi.implementer = zi.implementer_only = implementer
    zi.provider = implementer
    zi.classImplements = lambda c, *ifs: implementer(*ifs)(c) and None
    zi.directlyProvides = zi.alsoProvides = lambda *a: None
    zi.moduleProvides = lambda *a: None
    zi.implementedBy = lambda c: getattr(c, '__sx_impl__', ())
    zi.providedBy = lambda o: getattr(type(o), '__sx_impl__', ())
    zi.__path__ = []
    mods['zope.interface'] = zi
    m = types.ModuleType('zope.interface.interfaces')
    m.IInterface = Interface
    zi.interfaces = m
    mods['zope.interface.interfaces'] = m
    return mods
