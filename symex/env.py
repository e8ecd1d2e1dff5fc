"""What the property harnesses see.  SymEnv makes inputs symbolic, ConcEnv
replays one assignment of the same inputs on the real code."""
import z3

from . import core, rt
from .core import Ch, SBool, SInt, SReal, SStr, Sym, mkbool, to_z3bool


class CheckFailed(Exception):
    pass


class EnvBase:
    symbolic = False

    # -- derived inputs
    def choice(self, name, seq):
        return seq[self.pick(name, len(seq))]

    def flag(self, name):
        """a boolean that splits the path"""
        return bool(self.bool(name))

    def docids(self, n, lo, hi, prefix='d'):
        return [self.int('%s%d' % (prefix, i), lo, hi) for i in range(n)]

    def family(self, bits=32):
        b = self.mod('BTrees')
        return b.family64 if bits == 64 else b.family32

    def raises(self, exc, fn, *a, **k):
        """the exception of type exc raised by fn, or None"""
        try:
            fn(*a, **k)
        except exc as e:
            return e
        return None

    def must_raise(self, exc, msg, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return
        self.check(False, msg)

    def check_ids(self, result, expected, msg):
        """result (any docid collection) holds exactly the ids `expected` (distinct)."""
        got = self.ids(result)
        self.observe(msg, ('sorted', got))
        self.check(len(got) == len(expected), msg + ' (number of ids)')
        for e in expected:
            self.check(self.anyeq(e, got), msg + ' (missing id)')
        # distinctness of result ids: same number, all expected ones present, expected distinct

    def check_list(self, got, expected, msg):
        got, expected = list(got), list(expected)
        self.observe(msg, got)
        self.check(len(got) == len(expected), msg + ' (length)')
        for a, b in zip(got, expected):
            self.check(a == b, msg)

    def close(self, a, b, msg, tol=1e-5):
        """a and b equal up to single precision rounding"""
        if isinstance(a, Sym) or isinstance(b, Sym):
            ea, eb = core.as_real(a), core.as_real(b)
            t = core.rv(tol)
            ab = z3.If(eb >= 0, eb, -eb)
            self.check(mkbool(z3.And(ea - eb <= t * (1 + ab), eb - ea <= t * (1 + ab))), msg)
        else:
            self.check(abs(a - b) <= tol * (1 + abs(b)), msg)


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, path, world, params=None):
        self.p = path
        self.w = world
        self.order = []

    # -- inputs
    def _new(self, name, kind, e):
        assert name not in self.p.inputs, name
        self.p.inputs[name] = (kind, e)

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self._new(name, 'int', e)
        cs = []
        if lo is not None:
            cs.append(e >= lo)
        if hi is not None:
            cs.append(e <= hi)
        if cs:
            self.p.assume(z3.And(cs))
        return SInt(e)

    def bool(self, name):
        e = z3.Bool(name)
        self._new(name, 'bool', e)
        return SBool(e)

    def real(self, name, lo=None, hi=None):
        e = z3.Real(name)
        self._new(name, 'real', e)
        if lo is not None:
            self.p.assume(e >= core.rv(lo))
        if hi is not None:
            self.p.assume(e <= core.rv(hi))
        return SReal(e)

    def pick(self, name, n):
        e = z3.Int(name)
        self._new(name, 'int', e)
        self.p.assume(z3.And(e >= 0, e < n))
        return self.p.concretize(e, 'choice')

    def str(self, name, length, alphabet):
        """string of the given length over the alphabet (string or iterable of code points)"""
        dom = tuple(sorted({ord(c) if isinstance(c, str) else c for c in alphabet}))
        ivs = core.intervals(dom)
        cs = []
        for i in range(length):
            e = z3.Int('%s[%d]' % (name, i))
            self.p.assume(core.in_intervals(e, ivs))
            cs.append(Ch(e, dom))
        self._new(name, 'str', [c.e for c in cs])
        return core.mkstr(cs)

    # -- code
    def mod(self, name):
        return self.w.load(name)

    # -- logic
    def assume(self, c):
        self.p.assume(to_z3bool(c))

    def check(self, c, msg):
        if c is True:
            self.p.checks += 1
            self.p.stats.obligations += 1
            return
        self.p.check(to_z3bool(c), msg)

    def cover(self, label):
        self.p.covers.add(label)

    def observe(self, label, v):
        self.p.obs.append((label, v))

    def stop(self):
        raise core.PathDone()

    def eq(self, a, b):
        """a == b without splitting"""
        r = a == b
        return r

    def and_(self, *cs):
        return mkbool(z3.And([to_z3bool(c) for c in cs])) if cs else True

    def or_(self, *cs):
        return mkbool(z3.Or([to_z3bool(c) for c in cs])) if cs else False

    def not_(self, c):
        return mkbool(z3.Not(to_z3bool(c)))

    def implies(self, a, b):
        return mkbool(z3.Implies(to_z3bool(a), to_z3bool(b)))

    def ite(self, c, a, b):
        """number a if c else b, without splitting"""
        if not isinstance(c, Sym):
            return a if c else b
        if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
            return SReal(z3.If(to_z3bool(c), core.as_real(a), core.as_real(b)))
        return SInt(z3.If(to_z3bool(c), core.as_int(a), core.as_int(b)))

    def anyeq(self, x, xs):
        rest = []
        for y in xs:
            if y is x:
                return True
            c = x == y
            if isinstance(c, Sym):
                rest.append(c)
            elif c:
                return True
        return self.or_(*rest)

    def ids(self, c):
        """ids of a docid collection, in any order"""
        if hasattr(c, '_m') and hasattr(c._m, '_items'):
            return [k for k, v in c._m._items()]
        return list(c)

    def pairs(self, c):
        """(key, value) pairs of a mapping, in any order"""
        if hasattr(c, '_m') and hasattr(c._m, '_items'):
            return list(c._m._items())
        return list(c.items())

    def log(self, x):
        return self.w.mods['math'].log(x)

    def sqrt(self, x):
        return self.w.mods['math'].sqrt(x)

    def oka(self):
        from . import oka
        return oka.Score(self.w.load('zope.index.text.okascore'))

    # -- persistence
    def session(self, root, concurrent=False):
        return SymSession(root)

    def pickled(self, x):
        from .models.persist import pickled
        return pickled(x)


class SymSession:
    def __init__(self, root):
        from .models.persist import Store
        self.store = Store()
        self.root = root
        self.rid = self.store.commit(root)

    def commit(self):
        self.rid = self.store.commit(self.root)

    def abort(self):
        self.store.abort()

    def reload(self):
        """the committed state in a new session"""
        root, self.store = self.store.load(self.rid)
        self.root = root
        return root

    def fork(self):
        """the committed state in two concurrent transactions"""
        self.two = [self.store.load(self.rid, self.store.n + 1000 * i) for i in (1, 2)]
        return [root for root, store in self.two]

    def join(self):
        """commit the first one, then the second one; whether the second one succeeded"""
        for root, store in self.two:
            store.commit(root)
        base = self.store
        if base.merge(self.two[0][1], self.two[1][1]):
            return True
        self.store = self.two[0][1]
        return False

    def close(self):
        pass


class ConcEnv(EnvBase):
    def __init__(self, inputs):
        self.inputs = inputs
        self.covers = set()
        self.obs = []
        self.missing = []
        self.checks = 0

    def _get(self, name, default):
        if name not in self.inputs:
            self.missing.append(name)
            return default
        return self.inputs[name]

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, lo if lo is not None else 0.0))

    def pick(self, name, n):
        return int(self._get(name, 0))

    def str(self, name, length, alphabet):
        a = sorted({c if isinstance(c, str) else chr(c) for c in alphabet}) if name not in self.inputs else None
        return self._get(name, a[0] * length if a else '')

    def mod(self, name):
        from . import real
        return real.load(name)

    def assume(self, c):
        if not c:
            raise core.Infeasible()

    def check(self, c, msg):
        self.checks += 1
        if not c:
            raise CheckFailed(msg)

    def cover(self, label):
        self.covers.add(label)

    def observe(self, label, v):
        self.obs.append((label, canon(v)))

    def stop(self):
        raise core.PathDone()

    def eq(self, a, b):
        return a == b

    def and_(self, *cs):
        return all(cs)

    def or_(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return bool(not a or b)

    def ite(self, c, a, b):
        return a if c else b

    def anyeq(self, x, xs):
        return any(x == y for y in xs)

    def ids(self, c):
        return list(c)

    def pairs(self, c):
        return list(c.items())

    def log(self, x):
        import math
        return math.log(x)

    def sqrt(self, x):
        import math
        return math.sqrt(x)

    def oka(self):
        from . import real
        return real.score()

    def session(self, root, concurrent=False):
        from . import real
        return real.Session(root, concurrent)

    def pickled(self, x):
        import pickle
        return pickle.loads(pickle.dumps(x))


# ------------------------------------------------------- observed values

def canon(v):
    """plain comparable form of an observed (concrete) value"""
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'sorted':
        return sorted((canon(x) for x in v[1]), key=repr)
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, (bytes, bytearray)):
        return list(v)
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return sorted(([canon(k), canon(x)] for k, x in v.items()), key=repr)
    if isinstance(v, (set, frozenset)):
        return sorted((canon(x) for x in v), key=repr)
    if hasattr(v, 'items') and hasattr(v, 'keys'):
        return sorted(([canon(k), canon(x)] for k, x in v.items()), key=repr)
    if hasattr(v, 'isdisjoint'):
        return sorted((canon(x) for x in v), key=repr)
    if isinstance(v, type):
        return v.__name__
    return '<%s>' % type(v).__name__


def canon_model(v, m):
    """the same for a value holding symbolic parts, under model m"""
    c = lambda x: canon_model(x, m)
    if isinstance(v, SBool):
        return bool(z3.is_true(m.eval(v.e, model_completion=True)))
    if isinstance(v, SInt):
        return core.model_int(m, v.e)
    if isinstance(v, SReal):
        return float(core.model_frac(m, v.e))
    if isinstance(v, SStr):
        return ''.join(chr(x if isinstance(x, int) else core.model_int(m, x.e)) for x in v.c)
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] == 'sorted':
        return sorted((c(x) for x in v[1]), key=repr)
    if isinstance(v, rt.SymDict):
        return sorted(([c(k), c(x)] for k, x in v._items()), key=repr)
    if isinstance(v, rt.SymSet):
        return sorted((c(x) for x in v._m.keys()), key=repr)
    if hasattr(v, '_m') and isinstance(v._m, rt.SymDict):
        if v.ISSET:
            return sorted((c(k) for k, x in v._m._items()), key=repr)
        return sorted(([c(k), c(x)] for k, x in v._m._items()), key=repr)
    if isinstance(v, (list, tuple)):
        return [c(x) for x in v]
    if type(v).__name__ in ('SymBytes', 'Array'):
        return [c(x) for x in v]
    return canon(v)


def same_obs(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return abs(a - b) <= 1e-4 * (1 + abs(a))
        except TypeError:
            return False
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_obs(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b or (isinstance(a, int) and isinstance(b, int) and a == b)


def inputs_from_model(inputs, m):
    out = {}
    for name, (kind, e) in inputs.items():
        if kind == 'int':
            out[name] = core.model_int(m, e)
        elif kind == 'bool':
            out[name] = bool(z3.is_true(m.eval(e, model_completion=True)))
        elif kind == 'real':
            out[name] = float(core.model_frac(m, e))
        elif kind == 'str':
            out[name] = ''.join(chr(core.model_int(m, x)) for x in e)
    return out
