"""Runtime support for instrumented modules: containers and builtins that
accept symbolic values."""
import builtins
import sys

import z3

from . import core
from .core import (SBool, SInt, SReal, SStr, Sym, EngineAbort, Unsupported,
                   deep_sym, isstr, mkbool, mkstr, chars_of)

_MISSING = object()


def conc(x):
    """True if x can be used as an ordinary hashable key."""
    return not deep_sym(x)


def same(a, b):
    """Python's container equality: identity or ==, as a truth value."""
    return a is b or bool(a == b)


def str_key(k):
    e = z3.IntVal(0)
    for c in k.c:
        e = e * 0x110000 + core.ch_e(c)
    return e


class SymDict:
    """dict whose keys may be symbolic (equality is decided by the solver)."""
    __slots__ = ('_d', '_l', '__weakref__', '__dict__')
    __hash__ = None
    _tab = None     # analysed lookups of a large constant dict

    def __init__(self, *a, **k):
        self._d = {}
        self._l = None
        self.update(*a, **k)

    # -- storage
    def _tolist(self):
        self._tab = None
        if self._l is None:
            self._l = [[k, v] for k, v in self._d.items()]
            self._d = None

    def _items(self):
        return list(self._d.items()) if self._l is None else [(k, v) for k, v in self._l]

    def _find(self, k):
        """entry index/key or None"""
        if self._l is None:
            if conc(k):
                try:
                    return k in self._d
                except TypeError:
                    raise
            if not self._d:
                return False
            if len(self._d) > 24:
                return self._bigfind(k)
            for q in self._d:
                if type(q) in (int, float, str, bool, tuple) and same(k, q):
                    return (q,)
            return False
        for e in self._l:
            if same(e[0], k):
                return e
        return False

    def _bigkey(self, k):
        """(int key expression, mapping int->stored key) for table lookups"""
        if isinstance(k, SInt):
            return k.e, {int(q): q for q in self._d if type(q) is int}
        if isinstance(k, SStr):
            n = len(k)
            base = 0x110000
            e = str_key(k)
            m = {}
            for q in self._d:
                if type(q) is str and len(q) == n:
                    v = 0
                    for c in q:
                        v = v * base + ord(c)
                    m[v] = q
            # drop entries impossible for the domains of the characters
            doms = [(c,) if isinstance(c, int) else c.dom for c in k.c]
            if all(d is not None for d in doms):
                ds = [frozenset(d) for d in doms]
                m = {v: q for v, q in m.items() if all(ord(x) in d for x, d in zip(q, ds))}
            return e, m
        raise Unsupported('lookup of %s in a large dict' % type(k).__name__)

    def _bigfind(self, k):
        key = None
        if self._tab is not None:
            if isinstance(k, SInt):
                key = 'int'
            elif isinstance(k, SStr):
                key = tuple(c if isinstance(c, int) else c.dom for c in k.c)
        if key is not None and key in self._tab:
            pres, values = self._tab[key]
            e = k.e if key == 'int' else str_key(k)
        else:
            e, m = self._bigkey(k)
            pres = core.Table([(x, 0) for x in sorted(m)])
            values = Values([(x, self._d[q]) for x, q in sorted(m.items())]) if m else None
            if key is not None:
                if len(self._tab) > 200:
                    self._tab.clear()
                self._tab[key] = pres, values
        if not core.CUR.branch(pres.expr(e, z3.IntVal(0))[0]):
            return False
        return ('big', e, values)

    def _value(self, f, k):
        if f is True:
            return self._d[k]
        if isinstance(f, list):
            return f[1]
        if isinstance(f, tuple) and len(f) == 1:
            return self._d[f[0]]
        _, e, values = f
        return values.at(e)

    # -- mapping API
    def __getitem__(self, k):
        f = self._find(k)
        if f is False:
            if hasattr(type(self), '__missing__'):
                return self.__missing__(k)
            raise KeyError(k)
        return self._value(f, k)

    def get(self, k, d=None):
        f = self._find(k)
        return d if f is False else self._value(f, k)

    def __contains__(self, k):
        return self._find(k) is not False

    has_key = __contains__

    def __setitem__(self, k, v):
        if self._l is None and conc(k):
            hash(k)
            self._d[k] = v
            if self._tab is not None:
                self._tab = None
            return
        self._tolist()
        for e in self._l:
            if same(e[0], k):
                e[1] = v
                return
        self._l.append([k, v])

    def __delitem__(self, k):
        if self._l is None:
            self._tab = None
            if conc(k):
                del self._d[k]
                return
            self._tolist()
        for i, e in enumerate(self._l):
            if same(e[0], k):
                del self._l[i]
                return
        raise KeyError(k)

    def __len__(self):
        return len(self._d if self._l is None else self._l)

    def __bool__(self):
        return len(self) > 0

    def _iter(self, what):
        n = len(self)
        for k, v in self._items():
            yield k if what == 'k' else v if what == 'v' else (k, v)
            if len(self) != n:
                raise RuntimeError('dictionary changed size during iteration')

    def __iter__(self):
        return self._iter('k')

    def __reversed__(self):
        return iter([k for k, v in self._items()][::-1])

    def keys(self):
        return View(self, 'k')

    def values(self):
        return View(self, 'v')

    def items(self):
        return View(self, 'i')

    def update(self, *a, **k):
        if a:
            if len(a) > 1:
                raise TypeError('update expected at most 1 argument')
            src = a[0]
            if hasattr(src, 'keys'):
                for q in src.keys():
                    self[q] = src[q]
            else:
                for q, v in src:
                    self[q] = v
        for q, v in k.items():
            self[q] = v

    def setdefault(self, k, d=None):
        f = self._find(k)
        if f is False:
            self[k] = d
            return d
        return self._value(f, k)

    def pop(self, k, *d):
        f = self._find(k)
        if f is False:
            if d:
                return d[0]
            raise KeyError(k)
        v = self._value(f, k)
        del self[k]
        return v

    def popitem(self):
        if not len(self):
            raise KeyError('popitem(): dictionary is empty')
        k, v = self._items()[-1]
        self._tab = None
        if self._l is None:
            del self._d[k]
        else:
            del self._l[-1]
        return k, v

    def clear(self):
        self._d = {}
        self._l = None
        self._tab = None

    def copy(self):
        r = type(self)() if type(self) is not DefaultDict else DefaultDict(self.default_factory)
        if self._l is None:
            r._d, r._l = dict(self._d), None
        else:
            r._d, r._l = None, [list(e) for e in self._l]
        return r
    __copy__ = copy

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r

    def __eq__(self, o):
        if not isinstance(o, (SymDict, dict)):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self._items():
            if k not in o or not same(o[k], v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return '{%s}' % ', '.join('%r: %r' % kv for kv in self._items())


class Values:
    """values of a finite table with int keys, analysed once"""

    def __init__(self, pairs):
        self.pairs = pairs
        self.groups = None
        vs = [v for _, v in pairs]
        if all(v is vs[0] for v in vs):
            self.kind = 'same'
        elif all(type(v) is int for v in vs):
            self.kind = 'int'
            self.table = core.Table(pairs)
        elif all(type(v) is str for v in vs):
            self.kind = 'str'
            by = {}
            for k, v in pairs:
                by.setdefault(len(v), []).append((k, v))
            self.groups = [(n, core.Table([(k, 0) for k, _ in by[n]]),
                            [core.Table([(k, ord(v[i])) for k, v in by[n]]) for i in range(n)]) for n in sorted(by)]
        else:
            self.kind = 'other'

    def at(self, e):
        """value at int expression e (known to be present)"""
        if self.kind == 'same':
            return self.pairs[0][1]
        if self.kind == 'int':
            _, x = self.table.expr(e, z3.IntVal(self.table.first))
            return SInt(x)
        if self.kind == 'str':
            for n, keys, cols in self.groups:
                if n != self.groups[-1][0]:
                    pres, _ = keys.expr(e, z3.IntVal(0))
                    if not core.CUR.branch(pres):
                        continue
                out = []
                for t in cols:
                    _, x = t.expr(e, z3.IntVal(t.first))
                    x = z3.simplify(x)
                    out.append(x.as_long() if z3.is_int_value(x) else core.Ch(x, None))
                return mkstr(out)
        # anything else: split on the index
        i = core.CUR.concretize(e, 'table')
        return dict(self.pairs)[i]


def table_values(e, pairs):
    return Values(pairs).at(e)


_tuples = {}


def tuple_values(o):
    """Values of a tuple or str; the analysis of large ones is kept"""
    if len(o) < 256 or type(o) is list:
        return Values(list(enumerate(o)))
    got = _tuples.get(id(o))
    if got is None:
        if len(_tuples) > 20:
            _tuples.clear()
        got = _tuples[id(o)] = (o, Values(list(enumerate(o))))
    return got[1]


class View:
    def __init__(self, d, what):
        self._m, self._w = d, what

    def __iter__(self):
        return self._m._iter(self._w)

    def __len__(self):
        return len(self._m)

    def __contains__(self, x):
        if self._w == 'k':
            return x in self._m
        return any(same(x, y) for y in self)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def _set(self):
        return SymSet(self)

    def __and__(self, o):
        return SymSet(self) & SymSet(o)
    __rand__ = __and__

    def __or__(self, o):
        return SymSet(self) | SymSet(o)
    __ror__ = __or__

    def __sub__(self, o):
        return SymSet(self) - SymSet(o)

    def __rsub__(self, o):
        return SymSet(o) - SymSet(self)

    def __xor__(self, o):
        return SymSet(self) ^ SymSet(o)

    def isdisjoint(self, o):
        return SymSet(self).isdisjoint(o)

    def __eq__(self, o):
        return SymSet(self) == SymSet(o)

    def __le__(self, o):
        return SymSet(self) <= SymSet(o)

    def __ge__(self, o):
        return SymSet(self) >= SymSet(o)

    def __repr__(self):
        return 'dict_view(%r)' % (list(self),)


class DefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        SymDict.__init__(self, *a, **k)
        self.default_factory = factory

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self[k] = self.default_factory()
        return v


class Counter(SymDict):
    def __init__(self, it=None, **k):
        SymDict.__init__(self)
        self.update(it, **k)

    def update(self, it=None, **k):
        if it is not None:
            if hasattr(it, 'items'):
                for q, v in it.items():
                    self[q] = self.get(q, 0) + v
            else:
                for q in it:
                    self[q] = self.get(q, 0) + 1
        for q, v in k.items():
            self[q] = self.get(q, 0) + v

    def __missing__(self, k):
        return 0

    def elements(self):
        for k, v in self._items():
            for _ in range(v):
                yield k

    def most_common(self, n=None):
        r = sorted(self._items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]

    def total(self):
        return sum(self.values())

    def subtract(self, it):
        for q in it:
            self[q] = self.get(q, 0) - 1


class SymSet:
    __hash__ = None

    def __init__(self, it=()):
        self._m = SymDict()
        for x in it:
            self.add(x)

    def _new(self, it=()):
        return type(self)(it)

    def add(self, x):
        if x not in self._m:
            self._m[x] = None

    def __contains__(self, x):
        return x in self._m

    def __iter__(self):
        n = len(self)
        xs = [k for k, v in self._m._items()]
        try:
            xs = sorted(xs) if all(conc(x) for x in xs) else xs
        except TypeError:
            pass
        for k in xs:
            yield k
            if len(self._m) != n:
                raise RuntimeError('Set changed size during iteration')

    def __len__(self):
        return len(self._m)

    def __bool__(self):
        return len(self._m) > 0

    def remove(self, x):
        if x not in self._m:
            raise KeyError(x)
        del self._m[x]

    def discard(self, x):
        if x in self._m:
            del self._m[x]

    def pop(self):
        for x in self:
            del self._m[x]
            return x
        raise KeyError('pop from an empty set')

    def clear(self):
        self._m.clear()

    def copy(self):
        return self._new(self)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = self._new(self)
        for it in its:
            for x in it:
                if x not in r._m:
                    r._m[x] = None
        return r

    def intersection(self, *its):
        r = list(self)
        for it in its:
            o = it if hasattr(it, '__contains__') and not isinstance(it, (list, tuple)) else SymSet(it)
            r = [x for x in r if x in o]
        return self._new(r)

    def difference(self, *its):
        r = list(self)
        for it in its:
            o = it if isinstance(it, SymSet) else SymSet(it)
            r = [x for x in r if x not in o]
        return self._new(r)

    def symmetric_difference(self, o):
        o = SymSet(o)
        return self._new([x for x in self if x not in o] + [x for x in o if x not in self])

    def difference_update(self, *its):
        self._m = self.difference(*its)._m

    def intersection_update(self, *its):
        self._m = self.intersection(*its)._m

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _chk(f):
        def g(self, o):
            if not isinstance(o, (SymSet, set, frozenset, View)):
                return NotImplemented
            return f(self, o)
        return g
    __or__ = _chk(lambda s, o: s.union(o))
    __ror__ = _chk(lambda s, o: s._new(o).union(s))
    __and__ = _chk(lambda s, o: s.intersection(o))
    __rand__ = __and__
    __sub__ = _chk(lambda s, o: s.difference(o))
    __rsub__ = _chk(lambda s, o: s._new(o).difference(s))
    __xor__ = _chk(lambda s, o: s.symmetric_difference(o))
    __le__ = _chk(lambda s, o: s.issubset(o))
    __ge__ = _chk(lambda s, o: s.issuperset(o))
    __lt__ = _chk(lambda s, o: len(s) < len(o) and s.issubset(o))
    __gt__ = _chk(lambda s, o: len(s) > len(o) and s.issuperset(o))
    __eq__ = _chk(lambda s, o: len(s) == len(o) and s.issuperset(o))
    __ne__ = _chk(lambda s, o: not (len(s) == len(o) and s.issuperset(o)))
    del _chk

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __repr__(self):
        return '{%s}' % ', '.join(map(repr, self))


class FrozenSymSet(SymSet):
    def __hash__(self):
        return hash(frozenset(self))


# ---------------------------------------------------------------- builtin types

class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return sx_isinstance(x, cls)

    def __subclasscheck__(cls, c):
        return c is cls or builtins.issubclass(c, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __ne__(cls, o):
        return not cls.__eq__(o)

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        real = getattr(cls._real, n)
        if callable(real):
            def f(s, *a, **k):
                if isinstance(s, Sym):
                    return getattr(s, n)(*a, **k)
                if isinstance(s, cls._real):
                    return callm(s, n, *a, **k)
                return real(s, *a, **k)
            f.__name__ = n
            return f
        return real

    def __repr__(cls):
        return repr(cls._real)

    def __or__(cls, o):
        return (cls, o)


class Int(metaclass=_TypeMeta):
    _real = int

    def __new__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return SInt(core.as_int(x))
        if isinstance(x, SReal):
            return core.real_to_int(x)
        if isinstance(x, SStr):
            return int(x.realize(), *a)
        return int(x, *a)


class Float(metaclass=_TypeMeta):
    _real = float

    def __new__(cls, x=0.0):
        if isinstance(x, SReal):
            return x
        if isinstance(x, (SInt, SBool)):
            return SReal(core.as_real(x))
        if isinstance(x, SStr):
            return float(x.realize())
        return float(x)


class Bool(metaclass=_TypeMeta):
    _real = bool

    def __new__(cls, x=False):
        # forks when symbolic
        return bool(x)


class Str(metaclass=_TypeMeta):
    _real = str

    def __new__(cls, *a, **k):
        if a and isinstance(a[0], SStr):
            return a[0]
        if a and isinstance(a[0], SInt):
            return str(a[0].__index__())
        return str(*a, **k)

    @staticmethod
    def maketrans(*a):
        return str.maketrans(*[dict(x.items()) if isinstance(x, SymDict) else x for x in a])


_ALIAS = {Int: int, Float: float, Bool: bool, Str: str}


def sx_isinstance(x, t):
    if isinstance(t, tuple):
        return any(sx_isinstance(x, u) for u in t)
    r = _ALIAS.get(t, t) if isinstance(t, type) else t
    if r is int:
        return isinstance(x, (int, SInt, SBool))
    if r is bool:
        return isinstance(x, (bool, SBool))
    if r is float:
        return isinstance(x, (float, SReal))
    if r is str:
        return isinstance(x, (str, SStr))
    if r is SymDict or r is dict:
        return isinstance(x, (dict, SymDict))
    if r is SymSet or r is set:
        return isinstance(x, (set, SymSet)) and not isinstance(x, FrozenSymSet)
    if r is FrozenSymSet or r is frozenset:
        return isinstance(x, (frozenset, FrozenSymSet))
    if isinstance(x, Sym):
        conv = {SInt: int, SBool: bool, SReal: float, SStr: str}[type(x)]
        import numbers
        if r is object:
            return True
        try:
            return issubclass(conv, r)
        except TypeError:
            return isinstance(conv(), r)
    return isinstance(x, r)


def sx_issubclass(c, t):
    if isinstance(t, tuple):
        return any(sx_issubclass(c, u) for u in t)
    c = _ALIAS.get(c, c)
    t = _ALIAS.get(t, t)
    return issubclass(c, t)


_TYPEOF = {SInt: Int, SBool: Bool, SReal: Float, SStr: Str, int: Int, float: Float, bool: Bool,
           str: Str, dict: SymDict, set: SymSet, frozenset: FrozenSymSet}


class _TypeType(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            t = builtins.type(a[0])
            return _TYPEOF.get(t, t)
        return builtins.type(*a, **k)


class sx_type(type, metaclass=_TypeType):
    pass


def sx_len(x):
    return len(x)


def sx_ord(c):
    if isinstance(c, SStr):
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        x = c.c[0]
        return SInt(x.e)
    return ord(c)


def sx_chr(i):
    if isinstance(i, (SInt, SBool)):
        e = core.as_int(i)
        if core.CUR.branch(z3.Or(e < 0, e >= 0x110000)):
            raise ValueError('chr() arg not in range(0x110000)')
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return chr(e.as_long())
        return SStr((core.Ch(e, None),))
    return chr(i)


def sx_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.divmod_sym(a, b)
    return divmod(a, b)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_range(*a):
    return range(*[x.__index__() if isinstance(x, Sym) else x for x in a])


def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=bool(reverse))


def sx_repr(x):
    return repr(x)


def sx_hash(x):
    return hash(x)


def sx_round(x, n=None):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SReal):
        raise Unsupported('round of a symbolic real')
    return round(x) if n is None else round(x, n)


def sx_abs(x):
    return abs(x)


def sx_pow(a, b, *m):
    if m:
        return pow(*[x.__index__() if isinstance(x, Sym) else x for x in (a, b) + m])
    return a ** b


def sx_bin(x):
    return bin(x.__index__() if isinstance(x, Sym) else x)


def sx_eval(src, g=None, l=None):
    f = sys._getframe(1)
    if g is None:
        g, l = f.f_globals, f.f_locals
    elif l is None:
        l = g
    if isinstance(src, (str, SStr)):
        if isinstance(src, SStr):
            src = src.realize()
        from . import rewrite
        src = rewrite.compile_eval(src)
    g = dict(g.items()) if isinstance(g, SymDict) else dict(g)
    l = dict(l.items()) if isinstance(l, SymDict) else l
    g.setdefault('__builtins__', BUILTINS)
    g['_sx_'] = SX
    return eval(src, g, l)


def sx_locals():
    f = sys._getframe(1)
    return SymDict(f.f_locals)


def sx_getattr(o, n, *d):
    try:
        return attr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


# ---------------------------------------------------------------- instrumentation hooks

_STRM = frozenset('join find rfind index count startswith endswith replace split strip lstrip rstrip partition '
                  'format removeprefix removesuffix translate ljust rjust'.split())


def attr(o, n):
    if type(o) is str and n in _STRM:
        return lambda *a, **k: callm(o, n, *a, **k)
    return getattr(o, n)


def _symarg(a):
    for x in a:
        if isinstance(x, Sym):
            return True
    return False


def callm(o, n, *a, **k):
    """o.n(*a, **k) where o may be a plain str and arguments symbolic."""
    if type(o) is str and n in _STRM:
        if n == 'join':
            (seq,) = a
            seq = list(seq)
            if _symarg(seq):
                return core.join_str(o, seq)
            return o.join(seq)
        if _symarg(a):
            if n == 'format':
                raise Unsupported('str.format with symbolic arguments')
            if n in ('find', 'index', 'startswith', 'endswith', 'replace', 'split', 'count', 'rfind', 'strip',
                     'lstrip', 'rstrip', 'partition', 'removeprefix', 'removesuffix'):
                return getattr(SStr(map(ord, o)), n)(*a, **k)
        return getattr(o, n)(*a, **k)
    return getattr(o, n)(*a, **k)


def contains(c, x):
    """x in c"""
    if type(c) is str and isinstance(x, SStr):
        return core.find_str(c, x) >= 0
    if isinstance(x, Sym) and isinstance(c, (set, frozenset, dict)):
        for y in c:
            if same(y, x):
                return True
        return False
    if isinstance(c, range) and isinstance(x, SInt):
        if c.step == 1:
            return core.CUR.branch(z3.And(x.e >= c.start, x.e < c.stop))
    return x in c


def not_contains(c, x):
    return not contains(c, x)


def getitem(o, i):
    if isinstance(i, SInt):
        if isinstance(o, (tuple, list, str)) and len(o) > 16:
            n = len(o)
            e = i.e
            if not core.CUR.branch(z3.And(e >= -n, e < n)):
                raise IndexError('index out of range')
            if core.CUR.branch(e < 0):
                e = e + n
            return tuple_values(o).at(e)
        return o[i]
    if type(o) is dict and isinstance(i, Sym):
        for y, v in o.items():
            if same(y, i):
                return v
        raise KeyError(i)
    return o[i]


def mkdict(items=(), *more):
    return SymDict(items)


def mkdict2(parts):
    d = SymDict()
    for p in parts:
        if len(p) == 2:
            d[p[0]] = p[1]
        else:
            d.update(p[0])
    return d


def guard():
    e = sys.exc_info()[1]
    if isinstance(e, EngineAbort):
        raise e


def fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, SStr) and not spec and conv in (-1, 115):
            out.append(v)
        elif isinstance(v, Sym) and not isinstance(v, SStr) and conv == -1:
            out.append(v)          # decided below
        else:
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            out.append(format(v, spec))
    out = [x if isstr(x) else str(x) for x in out]
    return core.join_str('', out)


def percent(fmt, args):
    """'...' % args with plain '%s'/'%r' only when symbolic strings take part"""
    if type(fmt) is str:
        a = args if isinstance(args, tuple) else (args,)
        if any(isinstance(x, SStr) for x in a):
            out, i, k = [], 0, 0
            while i < len(fmt):
                if fmt[i] == '%' and i + 1 < len(fmt):
                    c = fmt[i + 1]
                    if c == '%':
                        out.append('%')
                    elif c == 's':
                        out.append(a[k] if isstr(a[k]) else str(a[k]))
                        k += 1
                    elif c == 'r':
                        out.append(repr(a[k]))
                        k += 1
                    else:
                        return fmt % args
                    i += 2
                else:
                    out.append(fmt[i])
                    i += 1
            return core.join_str('', out)
    return fmt % args


def enter(name):
    p = core.CUR
    if p is not None:
        p.funcs.add(name)


class _SX:
    pass


SX = _SX()
SX.attr = attr
SX.callm = callm
SX.contains = contains
SX.not_contains = not_contains
SX.getitem = getitem
SX.mkdict2 = mkdict2
SX.dict = SymDict
SX.set = SymSet
SX.guard = guard
SX.fstr = fstr
SX.percent = percent
SX.enter = enter

BUILTINS = dict(builtins.__dict__)
BUILTINS.update(
    dict=SymDict, set=SymSet, frozenset=FrozenSymSet, int=Int, float=Float, bool=Bool, str=Str,
    isinstance=sx_isinstance, issubclass=sx_issubclass, type=sx_type, ord=sx_ord, chr=sx_chr, divmod=sx_divmod,
    sum=sx_sum, range=sx_range, sorted=sx_sorted, round=sx_round, pow=sx_pow, bin=sx_bin, eval=sx_eval,
    locals=sx_locals, getattr=sx_getattr, _sx_=SX,
)
