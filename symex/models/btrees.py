"""Model of the BTrees package over symbolic keys.

Keys are kept in a SymDict (equality decided by the solver); the sorted order
is computed when somebody iterates.  Range and type checks, results and types
of the set operations follow BTrees 6.1 (tools/selftest.py compares them with
the real package).
"""
import functools
import struct
import types

import z3

from .. import core
from ..core import SBool, SInt, SReal, Sym, Unsupported
from ..rt import SymDict, SymSet, conc, same
from .persist import Conflict, Persistent, Ref

_M = object()


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return float('inf') if x > 0 else float('-inf')


RANGES = {'I': (-2 ** 31, 2 ** 31 - 1), 'L': (-2 ** 63, 2 ** 63 - 1), 'U': (0, 2 ** 32 - 1), 'Q': (0, 2 ** 64 - 1)}


def _kind(k):
    if isinstance(k, (int, float, SInt, SReal, SBool)):
        return 'n'
    if core.isstr(k):
        return 's'
    if k is None:
        return None
    return type(k)


class BadKey(Exception):
    pass


def int_key(k, code):
    """the key as stored, or TypeError"""
    if isinstance(k, SBool):
        k = SInt(core.as_int(k))
    if isinstance(k, bool):
        k = int(k)
    lo, hi = RANGES[code]
    if isinstance(k, SInt):
        p = core.CUR
        key = ('range', code, k.e.get_id())
        if key in p.cache:
            return k
        if p.branch(z3.And(k.e >= lo, k.e <= hi)):
            p.cache[key] = True
            p.keep.append(k.e)
            return k
        raise TypeError('integer out of range')
    if isinstance(k, int):
        if lo <= k <= hi:
            return k
        raise TypeError('integer out of range')
    raise TypeError('expected integer key')


def conv_value(v, code):
    if code == 'O':
        return v
    if code == 'F':
        if isinstance(v, SReal):
            return v
        if isinstance(v, (SInt, SBool)):
            return SReal(core.as_real(v))
        if isinstance(v, float):
            return f32(v)
        if isinstance(v, int):
            if not -2 ** 63 <= v < 2 ** 63:
                raise OverflowError('Python int too large to convert to C long')
            return f32(float(v))
        raise TypeError('expected float or int value')
    return int_key(v, code)


def cmp_keys(a, b):
    if a is b:
        return 0
    if a is None:
        return -1
    if b is None:
        return 1
    if a < b:
        return -1
    if a == b:
        return 0
    return 1


def sort_keys(pairs, key=lambda p: p[0]):
    """sorted list of pairs; forks on undecided comparisons"""
    if all(conc(key(p)) for p in pairs):
        ks = [key(p) for p in pairs]
        if None not in ks:
            try:
                return sorted(pairs, key=key)
            except TypeError:
                raise
    return sorted(pairs, key=functools.cmp_to_key(lambda p, q: cmp_keys(key(p), key(q))))


def cmp_values(a, b, kind):
    """values during conflict resolution (TEST_VALUE); what cannot be compared conflicts"""
    if kind != 'O':
        return 0 if a == b else 1
    if a is None or b is None:
        return 0 if a is b else 1
    if isinstance(a, Ref) or isinstance(b, Ref):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid:
            return 0
        raise Conflict()
    if isinstance(a, (dict, SymDict, SymSet)) or isinstance(b, (dict, SymDict, SymSet)):
        raise Conflict()
    try:
        return cmp_keys(a, b)
    except TypeError:
        raise Conflict()


def merge_buckets(s1, s2, s3, isset, kind):
    """MergeTemplate.c: sorted (key, value) pairs of the old, committed and new state"""
    if not s2 or not s3:
        raise Conflict()
    if max(len(s1), len(s2), len(s3)) > 30:
        raise Unsupported('conflict resolution of more than one bucket')
    i = [0, 0, 0]
    s = (s1, s2, s3)
    out = []

    def key(n):
        return s[n][i[n]][0]

    def more(*ns):
        return all(i[n] < len(s[n]) for n in ns)

    def test(n, m):
        return isset or cmp_values(s[n][i[n]][1], s[m][i[m]][1], kind) == 0

    def put(n):
        if out and not cmp_keys(out[-1][0], key(n)) < 0:
            raise Unsupported('keys out of order')
        out.append(s[n][i[n]])
        i[n] += 1

    while more(0, 1, 2):
        c12, c13 = cmp_keys(key(0), key(1)), cmp_keys(key(0), key(2))
        if c12 == 0:
            if c13 == 0:
                if test(0, 1):
                    put(2)
                    i[1] += 1
                elif test(0, 2):
                    put(1)
                    i[2] += 1
                else:
                    raise Conflict()
                i[0] += 1
            elif c13 > 0:
                put(2)
            elif test(0, 1):
                if i[2] == 0:
                    raise Conflict()
                i[0] += 1
                i[1] += 1
            else:
                raise Conflict()
        elif c13 == 0:
            if c12 > 0:
                put(1)
            elif test(0, 2):
                if i[1] == 0:
                    raise Conflict()
                i[0] += 1
                i[2] += 1
            else:
                raise Conflict()
        else:
            c23 = cmp_keys(key(1), key(2))
            if c23 == 0:
                raise Conflict()
            if c12 > 0:
                put(2 if c23 > 0 else 1)
            elif c13 > 0:
                put(2)
            else:
                raise Conflict()
    while more(1, 2):
        c23 = cmp_keys(key(1), key(2))
        if c23 == 0:
            raise Conflict()
        put(2 if c23 > 0 else 1)
    for a in (1, 2):
        while more(0, a):
            c = cmp_keys(key(0), key(a))
            if c > 0:
                put(a)
            elif c == 0 and test(0, a):
                i[0] += 1
                i[a] += 1
            else:
                raise Conflict()
    if more(0):
        raise Conflict()
    while more(1):
        put(1)
    while more(2):
        put(2)
    if not out:
        raise Conflict()
    return out


class Base(Persistent):
    KEY = VALUE = None
    TREE = False
    ISSET = False
    __hash__ = object.__hash__

    def __init__(self, src=None, *rest):
        if rest:
            raise TypeError('%s expected at most 1 argument' % type(self).__name__)
        self._m = SymDict()
        self._s = None
        self._p_changed = True

    def _read_current(self):
        # PER_READCURRENT of trees
        if self.TREE:
            self.__dict__['_p_read'] = True

    def _touch(self):
        self._s = None
        self._p_changed = True

    # persistence: the whole tree is one record
    def __getstate__(self):
        return {'_m': self._m}

    def __setstate__(self, st):
        self.__dict__['_m'] = st['_m']
        self.__dict__['_s'] = None

    # conflict resolution of concurrent transactions
    @classmethod
    def _resolve(cls, old, com, new):
        out = SymDict()
        for k, v in merge_buckets(*[sort_keys(st['_m']._items()) for st in (old, com, new)], cls.ISSET, cls.VALUE):
            out[k] = v
        return {'_m': out}

    # keys
    def _key(self, k, store=False):
        if self.KEY != 'O':
            return int_key(k, self.KEY)
        if store and k is not None and not isinstance(k, Sym) and type(k).__lt__ is object.__lt__:
            raise TypeError('Object of class %s has default comparison' % type(k).__name__)
        kk = _kind(k)
        if kk is not None:
            for q in (self._m._d if self._m._l is None else [e[0] for e in self._m._l]):
                kq = _kind(q)
                if kq is not None and kq != kk and (isinstance(kk, str) or isinstance(kq, str)):
                    q < k       # noqa  (raises TypeError as the real comparison does)
                    raise TypeError("'<' not supported")
                if self._m._l is None and kq is not None and len(self._m._d) > 8:
                    break
        if type(k) is tuple and conc(k):
            # items of the tuples may not compare: as the search of a bucket
            ps = self._pairs()
            lo, hi = 0, len(ps)
            while lo < hi:
                i = (lo + hi) // 2
                q = ps[i][0]
                if not conc(q):
                    break
                if q == k:
                    break
                if q < k:
                    lo = i + 1
                else:
                    hi = i
        return k

    def _lookup(self, k):
        """(present?, finder) for read accesses"""
        if self.KEY != 'O':
            try:
                k = int_key(k, self.KEY)
            except TypeError:
                return False
        else:
            if k is not None and not isinstance(k, Sym) and type(k).__lt__ is object.__lt__:
                return False
            k = self._key(k)
        f = self._m._find(k)
        return False if f is False else (f, k)

    def __contains__(self, k):
        return self._lookup(k) is not False

    def has_key(self, k):
        return self._lookup(k) is not False

    def __len__(self):
        return len(self._m)

    def __bool__(self):
        return len(self._m) > 0

    def _pairs(self):
        if self._s is None:
            self.__dict__['_s'] = sort_keys(self._m._items())
        return self._s

    def _range(self, lo=None, hi=None, excludemin=False, excludemax=False):
        ps = self._pairs()
        if lo is None and hi is None and not excludemin and not excludemax:
            return 0, len(ps)
        if not ps:
            return 0, 0
        # as in C: an end that leaves nothing returns before the other end is
        # converted
        i, j = 0, len(ps)
        if lo is not None:
            lo = self._key(lo)
            while i < j:
                c = cmp_keys(ps[i][0], lo)
                if c < 0 or (excludemin and c == 0):
                    i += 1
                else:
                    break
        elif excludemin:
            i += 1
        if i >= j:
            return 0, 0
        if hi is not None:
            hi = self._key(hi)
        if hi is not None:
            while j > i:
                c = cmp_keys(ps[j - 1][0], hi)
                if c > 0 or (excludemax and c == 0):
                    j -= 1
                else:
                    break
        elif excludemax and j > i:
            j -= 1
        return i, j

    def _seq(self, what, *a, **k):
        if 'min' in k:
            k['lo'] = k.pop('min')
        if 'max' in k:
            k['hi'] = k.pop('max')
        i, j = self._range(*a, **k)
        it = Items(self, what, i, j)
        return it if self.TREE else list(it)

    def keys(self, *a, **k):
        return self._seq('k', *a, **k)

    def __iter__(self):
        return iter(Items(self, 'k', 0, len(self._pairs())))

    def minKey(self, lo=None):
        i, j = self._range(lo)
        if i >= j:
            raise ValueError('empty tree' if not len(self) else 'no key satisfies the conditions')
        return self._pairs()[i][0]

    def maxKey(self, hi=None):
        i, j = self._range(None, hi)
        if i >= j:
            raise ValueError('empty tree' if not len(self) else 'no key satisfies the conditions')
        return self._pairs()[j - 1][0]

    def clear(self):
        if len(self._m):
            self._m = SymDict()
            self._touch()

    def _remove(self, k):
        if self.KEY == 'O':
            k2 = k
            if k is not None and not isinstance(k, Sym) and type(k).__lt__ is object.__lt__:
                raise KeyError(k)
            k2 = self._key(k)
        else:
            k2 = int_key(k, self.KEY)
        if len(self._m):
            self._read_current()
        if k2 not in self._m:
            raise KeyError(k)
        del self._m[k2]
        self._touch()

    def _mod(self):
        return self._module

    def __or__(self, o):
        return self._module['union'](self, o)

    def __ror__(self, o):
        return self._module['union'](o, self)

    def __and__(self, o):
        return self._module['intersection'](self, o)

    def __rand__(self, o):
        return self._module['intersection'](o, self)

    def __sub__(self, o):
        return self._module['difference'](self, o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __repr__(self):
        return '<%s %r>' % (type(self).__name__, self._m._items())


class Items:
    """BTreeItems (lazy, single bucket semantics under mutation)."""

    def __init__(self, t, what, i, j):
        self.t, self.what, self.i, self.j = t, what, i, j

    def _at(self, p):
        k, v = p
        return k if self.what == 'k' else v if self.what == 'v' else (k, v)

    def __len__(self):
        return max(0, self.j - self.i)

    def __bool__(self):
        return self.j > self.i

    def __iter__(self):
        i, last = self.i, self.j - 1
        while i <= last:
            ps = self.t._pairs()
            if i >= len(ps):
                raise RuntimeError('the bucket being iterated changed size')
            yield self._at(ps[i])
            i += 1
            if i >= len(self.t):
                return

    def __getitem__(self, i):
        if isinstance(i, slice):
            return list(self)[i]
        i = i.__index__()
        n = len(self)
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError(i)
        return self._at(self.t._pairs()[self.i + i])

    def __contains__(self, x):
        return any(same(x, y) for y in self)


class Mapping(Base):
    def __init__(self, src=_M, *rest):
        Base.__init__(self, *rest)
        if src is not _M:
            self.update(src)

    def update(self, src):
        if hasattr(src, 'items'):
            src = src.items()
        elif isinstance(src, (int, float, type(None))):
            raise AttributeError('items')
        for kv in src:
            if not isinstance(kv, tuple) or len(kv) != 2:
                raise TypeError('Sequence must contain 2-item tuples')
            self[kv[0]] = kv[1]

    def __getitem__(self, k):
        f = self._lookup(k)
        if f is False:
            raise KeyError(k)
        return self._m._value(*f)

    def get(self, k, d=None):
        f = self._lookup(k)
        return d if f is False else self._m._value(*f)

    def __setitem__(self, k, v):
        k = self._key(k, True)
        v = conv_value(v, self.VALUE)
        self._read_current()
        if self.VALUE != 'O' and conc(v) and k in self._m and conc(self._m[k]) and self._m[k] == v:
            return      # VALUE_SAME: not changed
        self._m[k] = v
        self._touch()

    def __delitem__(self, k):
        self._remove(k)

    def values(self, *a, **k):
        return self._seq('v', *a, **k)

    def items(self, *a, **k):
        return self._seq('i', *a, **k)

    def iterkeys(self, *a, **k):
        return iter(self.keys(*a, **k))

    def itervalues(self, *a, **k):
        return iter(self.values(*a, **k))

    def iteritems(self, *a, **k):
        return iter(self.items(*a, **k))

    def setdefault(self, k, d):
        if k in self:
            return self[k]
        self[k] = d
        return self[k]

    def pop(self, k, *d):
        f = self._lookup(k)
        if f is False:
            if d:
                return d[0]
            raise KeyError(k)
        v = self._m._value(*f)
        self._remove(k)
        return v

    def popitem(self):
        ps = self._pairs()
        if not ps:
            raise KeyError('popitem(): empty tree')
        k, v = ps[0] if self.TREE else ps[-1]
        self._remove(k)
        return k, v

    def byValue(self, lo):
        raise Unsupported('byValue')


class BTreeMixin:
    TREE = True

    def insert(self, k, v):
        self._read_current()
        if k in self:
            return 0
        self[k] = v
        return 1


class SetBase(Base):
    ISSET = True

    def __init__(self, src=_M, *rest):
        Base.__init__(self, *rest)
        if src is not _M:
            self.update(src)

    def update(self, src):
        n = 0
        for x in src:
            n += self.insert(x)
        return n

    def insert(self, k):
        k = self._key(k, True)
        self._read_current()
        if k in self._m:
            return 0
        self._m[k] = None
        self._touch()
        return 1
    add = insert

    def remove(self, k):
        self._remove(k)

    def discard(self, k):
        try:
            self._remove(k)
        except KeyError:
            pass

    def pop(self):
        ps = self._pairs()
        if not ps:
            raise KeyError('pop(): empty')
        k = ps[-1][0] if not self.TREE else ps[0][0]
        self._remove(k)
        return k

    def __xor__(self, o):
        o = self._module['Set'](o)
        return self._module['union'](self - o, o - self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def __iand__(self, o):
        keep = self._module['intersection'](self, o)
        for x in list(self):
            if x not in keep:
                self.remove(x)
        return self


def make_module(kc, vc):
    """classes and functions of one BTrees module (kc, vc: type codes)."""
    name = kc + vc
    mod = types.ModuleType('BTrees.%sBTree' % name)
    g = mod.__dict__
    common = dict(KEY=kc, VALUE=vc, _module=g, __module__=mod.__name__)

    def mk(suffix, *bases, **extra):
        d = dict(common)
        d.update(extra)
        c = type(name + suffix, bases, d)
        g[name + suffix] = c
        g[suffix] = c
        g[name + suffix + 'Py'] = g[suffix + 'Py'] = c
        return c
    Bucket = mk('Bucket', Mapping)
    BTree = mk('BTree', BTreeMixin, Mapping, TREE=True)
    Set = mk('Set', SetBase)
    TreeSet = mk('TreeSet', SetBase, TREE=True)

    class SetMixin:
        pass

    def getset(self, i):
        ps = self._pairs()
        i = i.__index__()
        if not -len(ps) <= i < len(ps):
            raise IndexError(i)
        return ps[i][0]
    Set.__getitem__ = getset
    g['using64bits'] = kc == 'L' or vc == 'L'

    def own(x):
        return isinstance(x, (Bucket, BTree, Set, TreeSet))

    def keyset(x):
        """membership/iteration view of an operand"""
        if own(x):
            return x
        if x is None or isinstance(x, (int, float)):
            raise TypeError('set operation: invalid argument, cannot iterate')
        return Set(x)

    def difference(a, b):
        if a is None or b is None:
            return a
        if not own(a):
            raise TypeError('set operation: invalid argument, cannot iterate')
        b = keyset(b)
        if a.ISSET:
            return _mkset([k for k, v in a._m._items() if k not in b])
        r = Bucket()
        for k, v in a._m._items():
            if k not in b:
                r._m._tolist() if not conc(k) else None
                _raw(r, k, v)
        return r

    def _raw(r, k, v):
        """insert a key known to be new"""
        m = r._m
        if m._l is None and conc(k):
            m._d[k] = v
        else:
            m._tolist()
            m._l.append([k, v])

    def _mkset(ks):
        r = Set()
        for k in ks:
            _raw(r, k, None)
        return r

    def union(a, b):
        if a is None:
            return b
        if b is None:
            return a
        a, b = keyset(a), keyset(b)
        r = _mkset([k for k, v in a._m._items()])
        ks = [k for k, v in b._m._items() if k not in a]
        for k in ks:
            _raw(r, k, None)
        return r

    def intersection(a, b):
        if a is None:
            return b
        if b is None:
            return a
        a, b = keyset(a), keyset(b)
        return _mkset([k for k, v in a._m._items() if k in b])
    g.update(difference=difference, union=union, intersection=intersection)

    def multiunion(seq):
        r = Set()
        for x in seq:
            if own(x):
                for k, v in x._m._items():
                    r.insert(k)
            elif isinstance(x, (int, SInt)):
                r.insert(x)
            else:
                for k in x:
                    r.insert(k)
        r._p_changed = True
        return r
    if kc != 'O':
        g['multiunion'] = multiunion

    def val(x, f, k):
        return x._m._value(f, k)

    def weightedUnion(a, b, w1=1, w2=1):
        if a is None:
            return (w2 if b is not None else 0), b
        if b is None:
            return w1, a
        if not own(a) or not own(b):
            raise TypeError('set operation: invalid argument, cannot iterate')
        one = conv_value(1, vc)
        if a.ISSET and b.ISSET:
            return one, union(a, b)
        r = Bucket()
        for k, v in a._m._items():
            v = one if a.ISSET else v
            f = b._m._find(k)
            x = v * w1
            if f is not False:
                x = x + (one if b.ISSET else val(b, f, k)) * w2
            _raw(r, k, conv_value(x, vc))
        for k, v in b._m._items():
            if k not in a:
                _raw(r, k, conv_value((one if b.ISSET else v) * w2, vc))
        return one, r

    def weightedIntersection(a, b, w1=1, w2=1):
        if a is None:
            return (w2 if b is not None else 0), b
        if b is None:
            return w1, a
        if not own(a) or not own(b):
            raise TypeError('set operation: invalid argument, cannot iterate')
        one = conv_value(1, vc)
        if a.ISSET and b.ISSET:
            return conv_value(w1 + w2, vc), intersection(a, b)
        r = Bucket()
        for k, v in a._m._items():
            f = b._m._find(k)
            if f is False:
                continue
            v = one if a.ISSET else v
            x = v * w1 + (one if b.ISSET else val(b, f, k)) * w2
            _raw(r, k, conv_value(x, vc))
        return one, r
    if vc != 'O':
        g.update(weightedUnion=weightedUnion, weightedIntersection=weightedIntersection)
    return mod


class Length(Persistent):
    value = 0

    def __init__(self, v=0):
        self.value = v

    def __getstate__(self):
        return {'value': self.value}

    def __setstate__(self, st):
        self.__dict__['value'] = st['value']

    def set(self, v):
        self.value = v

    def change(self, delta):
        self.value += delta

    @classmethod
    def _resolve(cls, old, com, new):
        return {'value': com['value'] + new['value'] - old['value']}

    def __call__(self, *a):
        return self.value


class Family:
    pass


def make_package():
    """{module name: module} for BTrees and its submodules"""
    mods = {}
    for k in 'IOLUQ':
        for v in 'IOLFUQ':
            if k == 'O' and v == 'F':
                continue
            m = make_module(k, v)
            mods[m.__name__] = m
    pkg = types.ModuleType('BTrees')
    pkg.__path__ = []
    for fam, i, u in (('family32', 'I', 'U'), ('family64', 'L', 'Q')):
        f = Family()
        f.__dict__.update(
            OO=mods['BTrees.OOBTree'], IO=mods['BTrees.%sOBTree' % i], OI=mods['BTrees.O%sBTree' % i],
            II=mods['BTrees.%s%sBTree' % (i, i)], IF=mods['BTrees.%sFBTree' % i],
            maxint=RANGES[i][1], minint=RANGES[i][0], maxuint=RANGES[u][1])
        f.__class__ = type(fam, (Family,), {'__reduce__': lambda self, n=fam: n})
        setattr(pkg, fam, f)
        for m in (f.IO, f.II, f.IF, f.OI):
            m.family = f
    mods['BTrees.OOBTree'].family = pkg.family32
    lm = types.ModuleType('BTrees.Length')
    lm.Length = Length
    mods['BTrees.Length'] = lm
    for n, m in mods.items():
        setattr(pkg, n.split('.')[1], m)
    pkg.BTreeFamily32 = type(pkg.family32)
    mods['BTrees'] = pkg
    return mods
