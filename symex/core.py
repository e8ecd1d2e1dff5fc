"""Symbolic values and path exploration on top of z3.

The code under test is executed by CPython itself; symbolic inputs are the
proxy objects below.  Whenever Python needs a concrete truth value the current
`Path` asks z3 which outcomes are feasible; the path takes one and the other is
left for a later execution (re-execution with a recorded decision prefix).
"""
import sys
from fractions import Fraction

import z3


class EngineAbort(BaseException):
    """Base of everything the engine raises through the code under test."""


class Infeasible(EngineAbort):
    """The path condition became unsatisfiable (assume failed)."""


class PathDone(EngineAbort):
    """The harness asked to end this path."""


class Unsupported(EngineAbort):
    """Something that cannot be encoded was reached; the path is inconclusive."""


class Violated(EngineAbort):
    """An assertion can fail on this path; a counterexample is attached."""

    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class Hang(EngineAbort):
    """The alarm went off."""


CUR = None          # the current Path


def set_current(p):
    global CUR
    CUR = p


_SOLVER = None


def solver():
    global _SOLVER
    if _SOLVER is None:
        _SOLVER = z3.SimpleSolver()
        _SOLVER.set("timeout", 60000)
        _SOLVER.set('random_seed', 1)
    return _SOLVER


MAX_DECISIONS = 4000
MAX_CONCRETIZE = 130


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.branches = 0
        self.obligations = 0


class Path:
    """One execution, driven by a prefix of decisions."""

    def __init__(self, prefix, stats):
        self.prefix = prefix
        self.decisions = []
        self.siblings = []
        self.stats = stats
        self.inputs = {}            # name -> descriptor
        self.pc = []
        self.cache = {}
        self.keep = []
        self.model = None
        self.nfresh = 0
        self.covers = set()
        self.obs = []
        self.checks = 0
        self.inconclusive = []
        self.nconc = 0
        self.calls = 0
        self.funcs = set()
        self.s = solver()
        self.s.push()

    def close(self):
        self.s.pop()

    # -- solver access
    def _check(self, *assumptions):
        import time
        t = time.perf_counter()
        r = self.s.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def need_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.s.model()
            elif r == z3.unsat:
                raise Infeasible()
            else:
                self.inconclusive.append('solver unknown on a path condition')
                raise Unsupported('unknown')
        return self.model

    def add(self, e):
        self.pc.append(e)
        self.s.add(e)

    def eval(self, e):
        return self.need_model().eval(e, model_completion=True)

    # -- branching
    #
    # A decision is (number of the branch call, value).  Which calls are
    # trivially decided (simplified to a constant, or seen before) may depend
    # on the order in which z3 numbered the terms, so it may differ between an
    # execution and the replay of its prefix; the call number keeps the two in
    # step.
    def _replaying(self):
        """the recorded decision of this call, or None; and whether the call
        lies inside the prefix"""
        n = len(self.decisions)
        if n >= len(self.prefix):
            return None, False
        c, d = self.prefix[n]
        if c == self.calls:
            return d, True
        if c < self.calls:
            raise Unsupported('decision replay out of step')
        return None, True

    def _forced(self, cond):
        """the value of a condition the path condition decides"""
        for d, other in ((True, z3.Not(cond)), (False, cond)):
            r = self._check(other)
            if r == z3.unsat:
                return d
            if r == z3.unknown:
                break
        raise Unsupported('decision replay out of step')

    def branch(self, cond):
        self.calls += 1
        rec, inside = self._replaying()
        cond = z3.simplify(cond)
        i = cond.get_id()
        got = None
        if z3.is_true(cond):
            got = True
        elif z3.is_false(cond):
            got = False
        else:
            got = self.cache.get(i)
            if got is None and z3.is_not(cond):
                got = self.cache.get(cond.arg(0).get_id())
                got = None if got is None else not got
        if rec is not None:
            if not isinstance(rec, bool) or (got is not None and got != rec):
                raise Unsupported('decision replay out of step')
            self.decisions.append((self.calls, rec))
            if got is None:
                self.add(cond if rec else z3.Not(cond))
                self.model = None
                self.cache[i] = rec
                self.keep.append(cond)
            return rec
        if got is not None:
            return got
        self.stats.branches += 1
        if inside:
            d = self._forced(cond)
        else:
            d = self._decide(cond)
        self.cache[i] = d
        self.keep.append(cond)
        return d

    def _decide(self, cond):
        if len(self.decisions) > MAX_DECISIONS:
            self.inconclusive.append('decision limit')
            raise Unsupported('decision limit')
        v = self.eval(cond)
        d = bool(z3.is_true(v))
        other = z3.Not(cond) if d else cond
        r = self._check(other)
        if r == z3.unknown:
            self.inconclusive.append('solver unknown on a branch')
        elif r == z3.sat:
            self.siblings.append(self.decisions + [(self.calls, not d)])
        self.decisions.append((self.calls, d))
        self.add(cond if d else z3.Not(cond))
        return d

    def concretize(self, e, why=''):
        """Split on the value of an Int expression (all feasible values)."""
        e = z3.simplify(e)
        key = ('c', e.get_id())
        got = None
        if z3.is_int_value(e):
            got = e.as_long()
        elif key in self.cache:
            got = self.cache[key]
        for _ in range(MAX_CONCRETIZE * 4):
            self.calls += 1
            rec, inside = self._replaying()
            if rec is not None:
                if isinstance(rec, bool) or (got is not None and (rec[0] == got) != rec[1]):
                    raise Unsupported('decision replay out of step')
                v, d = rec
                self.decisions.append((self.calls, rec))
                if got is not None:
                    if d:
                        return got
                    continue
                self.add(e == v if d else e != v)
                self.model = None
            elif got is not None:
                return got
            else:
                m = self.eval(e)
                v = m.as_long()
                self.nconc += 1
                r = self._check(e != v)
                if inside and r != z3.unsat:
                    raise Unsupported('decision replay out of step')
                if r == z3.sat:
                    if sum(1 for x in self.decisions if isinstance(x[1], tuple)) >= MAX_CONCRETIZE:
                        self.inconclusive.append('value split limit %s' % why)
                    else:
                        self.siblings.append(self.decisions + [(self.calls, (v, False))])
                elif r == z3.unknown:
                    self.inconclusive.append('solver unknown on a value split')
                d = True
                if not inside:
                    self.decisions.append((self.calls, (v, True)))
                self.add(e == v)
            if d:
                self.cache[key] = v
                self.keep.append(e)
                return v
        raise Unsupported('value split')

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.add(cond)
        if len(self.decisions) < len(self.prefix):
            self.model = None
            return
        if self.model is not None and z3.is_true(self.model.eval(cond, model_completion=True)):
            return
        self.model = None
        self.need_model()

    def check(self, cond, msg):
        """Assert cond on every value satisfying the path condition."""
        self.checks += 1
        self.stats.obligations += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if len(self.decisions) < len(self.prefix):
            # this assertion was decided by the execution that made the prefix
            # up to here; it held there (or was reported), assume it
            self.add(cond)
            self.model = None
            return
        if z3.is_false(cond):
            self.need_model()
            raise Violated(msg)
        r = self._check(z3.Not(cond))
        if r == z3.sat:
            self.model = self.s.model()
            self.add(z3.Not(cond))
            raise Violated(msg)
        if r == z3.unknown:
            self.inconclusive.append('solver unknown on assertion: %s' % msg)
        self.add(cond)
        if self.model is not None and not z3.is_true(self.model.eval(cond, model_completion=True)):
            self.model = None

    def fresh(self, sort, name=None):
        self.nfresh += 1
        return z3.Const('%s!%d' % (name or 'k', self.nfresh), sort)


def model_int(m, e):
    v = m.eval(e, model_completion=True)
    return v.as_long()


def model_frac(m, e):
    v = z3.simplify(m.eval(e, model_completion=True))
    if z3.is_rational_value(v) or z3.is_int_value(v):
        return v.as_fraction() if hasattr(v, 'as_fraction') else Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        return v.approx(20).as_fraction()
    raise Unsupported('real model value %s' % v)


# ---------------------------------------------------------------- numbers

def frac_of_float(f):
    return Fraction(repr(f)) if f == f and f not in (float('inf'), float('-inf')) else None


def rv(f):
    if isinstance(f, float):
        fr = frac_of_float(f)
        if fr is None:
            raise Unsupported('non-finite float constant')
        return z3.RealVal(str(fr))
    if isinstance(f, bool):
        return z3.RealVal(int(f))
    if isinstance(f, (int, Fraction)):
        return z3.RealVal(str(f))
    raise TypeError(f)


def is_sym(x):
    return isinstance(x, Sym)


def deep_sym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, (tuple, list)):
        return any(deep_sym(i) for i in x)
    return False


class Sym:
    __slots__ = ()


def as_int(x):
    """z3 Int expression of an int-like Python value, or None."""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    return None


def as_real(x):
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, (SInt, SBool)):
        return z3.ToReal(as_int(x))
    if isinstance(x, (int, float, Fraction)):
        return rv(x)
    return None


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def to_z3bool(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, int)) and not isinstance(x, SInt):
        return z3.BoolVal(bool(x))
    if isinstance(x, SInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


class SBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __invert__(self):
        return ~SInt(as_int(self))

    def _b(name):
        def op(self, other):
            return getattr(SInt(as_int(self)), name)(other)
        op.__name__ = name
        return op
    for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ __gt__ __ge__ '
               '__truediv__ __rtruediv__ __floordiv__ __mod__ __lshift__ __rshift__ __rlshift__').split():
        locals()[_n] = _b(_n)
    del _b, _n

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.And(self.e, to_z3bool(o)))
        return SInt(as_int(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Or(self.e, to_z3bool(o)))
        return SInt(as_int(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Xor(self.e, to_z3bool(o)))
        return SInt(as_int(self)) ^ o
    __rxor__ = __xor__

    def __neg__(self):
        return -SInt(as_int(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == to_z3bool(o))
        if isinstance(o, (int, SInt, float, SReal)):
            return SInt(as_int(self)) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __repr__(self):
        return '<sym bool>'
    __str__ = __repr__

    def __format__(self, s):
        return '<sym bool>'


def _num(op_int, op_real):
    def fwd(self, o):
        if isinstance(o, (SInt, SBool, int)):
            return SInt(op_int(self.e, as_int(o)))
        if isinstance(o, (SReal, float, Fraction)):
            return SReal(op_real(z3.ToReal(self.e), as_real(o)))
        return NotImplemented

    def rev(self, o):
        if isinstance(o, (SInt, SBool, int)):
            return SInt(op_int(as_int(o), self.e))
        if isinstance(o, (SReal, float, Fraction)):
            return SReal(op_real(as_real(o), z3.ToReal(self.e)))
        return NotImplemented
    return fwd, rev


def _cmp(op):
    def f(self, o):
        if isinstance(o, (SInt, SBool, int)):
            return mkbool(op(self.e, as_int(o)))
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return op(0, o)
        if isinstance(o, (SReal, float, Fraction)):
            return mkbool(op(z3.ToReal(self.e), as_real(o)))
        return NotImplemented
    return f


def _mask_and(e, m):
    """e & m for a constant m (any sign), infinite two's complement."""
    if m < 0:
        # e & m == e - (e & ~m)
        return e - _mask_and(e, ~m)
    total = None
    bit = 0
    while m >> bit:
        if not (m >> bit) & 1:
            bit += 1
            continue
        lo = bit
        while (m >> bit) & 1:
            bit += 1
        part = ((e / (1 << lo)) % (1 << (bit - lo))) * (1 << lo)
        if lo == 0:
            part = e % (1 << bit)
        total = part if total is None else total + part
    return z3.IntVal(0) if total is None else total


def _proved(e):
    p = CUR
    if len(p.decisions) < len(p.prefix):
        pass
    return p._check(z3.Not(e)) == z3.unsat


class SInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __add__, __radd__ = _num(lambda a, b: a + b, lambda a, b: a + b)
    __sub__, __rsub__ = _num(lambda a, b: a - b, lambda a, b: a - b)
    __mul__, __rmul__ = _num(lambda a, b: a * b, lambda a, b: a * b)

    def __neg__(self):
        return SInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return SInt(-self.e - 1)

    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (SInt, SBool, int)):
            return mkbool(self.e == as_int(o))
        if isinstance(o, (SReal, float, Fraction)):
            if isinstance(o, float) and (o != o or o in (float('inf'), float('-inf'))):
                return False
            return mkbool(z3.ToReal(self.e) == as_real(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not r if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __hash__(self):
        return hash(CUR.concretize(self.e, 'hash'))

    def __index__(self):
        return CUR.concretize(self.e, 'index')

    __int__ = __index__

    def __float__(self):
        return float(CUR.concretize(self.e, 'float'))

    def __truediv__(self, o):
        b = as_real(o)
        if b is None:
            return NotImplemented
        return _realdiv(z3.ToReal(self.e), b)

    def __rtruediv__(self, o):
        a = as_real(o)
        if a is None:
            return NotImplemented
        return _realdiv(a, z3.ToReal(self.e))

    def __floordiv__(self, o):
        r = divmod_sym(self, o)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        r = divmod_sym(o, self)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = divmod_sym(self, o)
        return r if r is NotImplemented else r[1]

    def __rmod__(self, o):
        r = divmod_sym(o, self)
        return r if r is NotImplemented else r[1]

    def __divmod__(self, o):
        return divmod_sym(self, o)

    def __rdivmod__(self, o):
        return divmod_sym(o, self)

    def __pow__(self, o):
        if isinstance(o, SInt):
            o = o.__index__()
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        if isinstance(o, float):
            return SReal(z3.ToReal(self.e)) ** o
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __lshift__(self, o):
        o = int(o)
        if o < 0:
            raise ValueError('negative shift count')
        return SInt(self.e * (1 << o))

    def __rshift__(self, o):
        o = int(o)
        if o < 0:
            raise ValueError('negative shift count')
        return SInt(self.e / (1 << o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if isinstance(o, (SBool,)):
            o = SInt(as_int(o))
        if isinstance(o, int):
            return SInt(_mask_and(self.e, int(o)))
        if isinstance(o, SInt):
            return _bitop(self.e, o.e, 'and')
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            o = SInt(as_int(o))
        if isinstance(o, int):
            o = int(o)
            return SInt(self.e + o - _mask_and(self.e, o))
        if isinstance(o, SInt):
            # disjoint bits: x | y == x + y
            for k in (1, 2, 4, 7, 8, 14, 16, 21, 28, 32):
                p = 1 << k
                for x, y in ((self.e, o.e), (o.e, self.e)):
                    if _proved(z3.And(x % p == 0, y >= 0, y < p)):
                        return SInt(x + y)
            return _bitop(self.e, o.e, 'or')
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SBool):
            o = SInt(as_int(o))
        if isinstance(o, int):
            o = int(o)
            return SInt(self.e + o - 2 * _mask_and(self.e, o))
        if isinstance(o, SInt):
            return _bitop(self.e, o.e, 'xor')
        return NotImplemented
    __rxor__ = __xor__

    def bit_length(self):
        n = 0
        a = abs(self)
        while a >= (1 << n):
            n += 1
        return n

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def __round__(self, n=None):
        return self
    __trunc__ = __floor__ = __ceil__ = __round__

    def __repr__(self):
        return '<sym int>'
    __str__ = __repr__

    def __format__(self, s):
        return '<sym int>'


def _bitop(a, b, op):
    if _proved(z3.And(a >= 0, b >= 0, a < 2 ** 32, b < 2 ** 32)):
        x, y = z3.Int2BV(a, 32), z3.Int2BV(b, 32)
        r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
        return SInt(z3.BV2Int(r))
    x = SInt(a).__index__()
    y = SInt(b).__index__()
    return {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]


def divmod_sym(a, b):
    if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)):
        raise Unsupported('divmod on reals')
    x, y = as_int(a), as_int(b)
    if x is None or y is None:
        return NotImplemented
    if CUR.branch(y == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if CUR.branch(y > 0):
        q = x / y
    else:
        q = (-x) / (-y)
    y_s = z3.simplify(y)
    if z3.is_int_value(y_s) and y_s.as_long() > 0:
        return SInt(q), SInt(x % y)
    return SInt(q), SInt(x - y * q)


def _realdiv(a, b):
    if CUR.branch(b == 0):
        raise ZeroDivisionError('float division by zero')
    return SReal(a / b)


def _rnum(op):
    def fwd(self, o):
        b = as_real(o)
        return NotImplemented if b is None else SReal(op(self.e, b))

    def rev(self, o):
        b = as_real(o)
        return NotImplemented if b is None else SReal(op(b, self.e))
    return fwd, rev


def _rcmp(op):
    def f(self, o):
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return op(0, o)
        b = as_real(o)
        return NotImplemented if b is None else mkbool(op(self.e, b))
    return f


class SReal(Sym):
    """A float, treated as a mathematical real (stated in every claim)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __add__, __radd__ = _rnum(lambda a, b: a + b)
    __sub__, __rsub__ = _rnum(lambda a, b: a - b)
    __mul__, __rmul__ = _rnum(lambda a, b: a * b)
    __lt__ = _rcmp(lambda a, b: a < b)
    __le__ = _rcmp(lambda a, b: a <= b)
    __gt__ = _rcmp(lambda a, b: a > b)
    __ge__ = _rcmp(lambda a, b: a >= b)

    def __eq__(self, o):
        b = as_real(o)
        return NotImplemented if b is None else mkbool(self.e == b)

    def __ne__(self, o):
        b = as_real(o)
        return NotImplemented if b is None else mkbool(self.e != b)

    def __neg__(self):
        return SReal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        b = as_real(o)
        return NotImplemented if b is None else _realdiv(self.e, b)

    def __rtruediv__(self, o):
        b = as_real(o)
        return NotImplemented if b is None else _realdiv(b, self.e)

    def __pow__(self, o):
        if isinstance(o, (int, float)) and o == int(o) and 0 <= o <= 8:
            r = 1
            for _ in range(int(o)):
                r = r * self
            return r
        if o == 0.5:
            from .models import mathmodel
            return mathmodel.sqrt(self)
        raise Unsupported('real power')

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def __float__(self):
        raise Unsupported('float() of a symbolic real in C code')

    def __int__(self):
        return SInt(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))).__index__()

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __repr__(self):
        return '<sym real>'
    __str__ = __repr__

    def __format__(self, s):
        return '<sym real>'


def real_to_int(x):
    """int(x): truncation."""
    return SInt(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))


# ---------------------------------------------------------------- tables

def affine_runs(pairs):
    """pairs: sorted list of (key, value) ints -> list of (start, n, value0, slope)."""
    runs = []
    i = 0
    n = len(pairs)
    while i < n:
        k0, v0 = pairs[i]
        slope = 0
        j = i + 1
        if j < n and pairs[j][0] == k0 + 1:
            slope = pairs[j][1] - v0
            while j < n and pairs[j][0] == k0 + (j - i) and pairs[j][1] == v0 + slope * (j - i):
                j += 1
        runs.append((k0, j - i, v0, slope))
        i = j
    return runs


def super_runs(runs):
    """Group runs in arithmetic progression: (s0, ds, count, n, v0, dv, slope)."""
    out = []
    i = 0
    while i < len(runs):
        s0, n, v0, sl = runs[i]
        j = i + 1
        ds = dv = 0
        if j < len(runs) and runs[j][1] == n and runs[j][3] == sl:
            ds = runs[j][0] - s0
            dv = runs[j][2] - v0
            while (j < len(runs) and runs[j][1] == n and runs[j][3] == sl and
                    runs[j][0] == s0 + ds * (j - i) and runs[j][2] == v0 + dv * (j - i)):
                j += 1
        out.append((s0, ds, j - i, n, v0, dv, sl))
        i = j
    return out


class Table:
    """finite int->int table, analysed once"""
    __slots__ = ('runs', 'first')

    def __init__(self, pairs):
        self.runs = super_runs(affine_runs(pairs))
        self.first = pairs[0][1] if pairs else 0

    def expr(self, key, default):
        """(presence formula, value expression) at `key`"""
        pres, val = [], default
        for s0, ds, cnt, n, v0, dv, sl in reversed(self.runs):
            if cnt == 1:
                c = z3.And(key >= s0, key < s0 + n) if n > 1 else key == s0
                v = v0 + sl * (key - s0) if sl else z3.IntVal(v0)
            else:
                off = key - s0
                j = off / ds
                o = off % ds
                c = z3.And(key >= s0, key <= s0 + ds * (cnt - 1) + n - 1, o < n)
                v = v0 + dv * j + sl * o
            pres.append(c)
            val = z3.If(c, v, val)
        return z3.Or(pres) if pres else z3.BoolVal(False), val


def table_expr(key, pairs, default):
    """(presence formula, value expression) of a finite int->int table at `key`."""
    return Table(pairs).expr(key, default)


def intervals(points):
    out = []
    for p in sorted(points):
        if out and out[-1][1] == p - 1:
            out[-1][1] = p
        else:
            out.append([p, p])
    return out


def in_intervals(e, ivs):
    cs = []
    for lo, hi in ivs:
        cs.append(e == lo if lo == hi else z3.And(e >= lo, e <= hi))
    return z3.Or(cs) if cs else z3.BoolVal(False)


# ---------------------------------------------------------------- strings

class Ch:
    """A symbolic character: code point expression and its domain (tuple of ints) or None."""
    __slots__ = ('e', 'dom')

    def __init__(self, e, dom=None):
        self.e = e
        self.dom = dom


def ch_e(c):
    return z3.IntVal(c) if isinstance(c, int) else c.e


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, int) and b.dom is not None and a not in b.dom:
        return z3.BoolVal(False)
    if isinstance(b, int) and a.dom is not None and b not in a.dom:
        return z3.BoolVal(False)
    return ch_e(a) == ch_e(b)


def mkstr(chars):
    """str if fully concrete, else SStr."""
    if all(isinstance(c, int) for c in chars):
        return ''.join(map(chr, chars))
    return SStr(tuple(chars))


def chars_of(s):
    if isinstance(s, SStr):
        return s.c
    return tuple(map(ord, s))


def isstr(x):
    return isinstance(x, (str, SStr))


def str_eq(a, b):
    """z3 formula for equality of two strings (str or SStr)."""
    x, y = chars_of(a), chars_of(b)
    if len(x) != len(y):
        return z3.BoolVal(False)
    cs = [ch_eq(p, q) for p, q in zip(x, y)]
    return z3.And(cs) if cs else z3.BoolVal(True)


def str_lt(a, b, orequal):
    x, y = chars_of(a), chars_of(b)
    # from the end
    n = min(len(x), len(y))
    if len(x) < len(y):
        acc = z3.BoolVal(True)
    elif len(x) > len(y):
        acc = z3.BoolVal(False)
    else:
        acc = z3.BoolVal(bool(orequal))
    for i in range(n - 1, -1, -1):
        p, q = ch_e(x[i]), ch_e(y[i])
        acc = z3.Or(p < q, z3.And(ch_eq(x[i], y[i]), acc))
    return acc


def _conc_char(c, why):
    if isinstance(c, int):
        return c
    return CUR.concretize(c.e, why)


WHITE = tuple(i for i in range(0x110000) if chr(i).isspace())


def map_chars(chars, fname):
    """lower/upper/casefold of symbolic characters through finite tables."""
    out = []
    if fname == 'lower' and len(chars) > 1:
        # the lower case of a capital sigma depends on its neighbours
        sigma = False
        for c in chars:
            if isinstance(c, int):
                sigma = sigma or c == 0x3a3
            elif c.dom is None or 0x3a3 in c.dom:
                sigma = CUR.branch(c.e == 0x3a3) or sigma
        if sigma:
            return [ord(x) for x in ''.join(chr(_conc_char(c, 'sigma')) for c in chars).lower()]
    for c in chars:
        if isinstance(c, int):
            out.extend(map(ord, getattr(chr(c), fname)()))
            continue
        if c.dom is None:
            out.extend(map(ord, getattr(chr(_conc_char(c, fname)), fname)()))
            continue
        odd = [d for d in c.dom if len(getattr(chr(d), fname)()) != 1]
        if odd and CUR.branch(in_intervals(c.e, intervals(odd))):
            out.extend(map(ord, getattr(chr(_conc_char(c, fname)), fname)()))
            continue
        pairs = [(d, ord(getattr(chr(d), fname)())) for d in c.dom if d not in odd]
        if all(a == b for a, b in pairs):
            out.append(c)
            continue
        _, v = table_expr(c.e, sorted(pairs), c.e)
        out.append(Ch(v, tuple(sorted({b for a, b in pairs}))))
    return out


def char_class(c, pred_points=None, pred=None):
    """formula: char c satisfies pred (a function of code point)"""
    if isinstance(c, int):
        return z3.BoolVal(bool(pred(c)))
    dom = c.dom if c.dom is not None else range(0x110000)
    return in_intervals(c.e, intervals([d for d in dom if pred(d)]))


class SStr(Sym):
    """String of concrete length with at least one symbolic character."""
    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = tuple(chars)

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        for x in self.c:
            yield mkstr((x,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[i])
        return mkstr((self.c[i],))

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(self.c + chars_of(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkstr(chars_of(o) + self.c)

    def __mul__(self, n):
        return mkstr(self.c * int(n))
    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported('% formatting with a symbolic format')

    def __eq__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(str_eq(self, o))

    def __ne__(self, o):
        if not isstr(o):
            return NotImplemented
        return mkbool(z3.Not(str_eq(self, o)))

    def __lt__(self, o):
        return mkbool(str_lt(self, o, False)) if isstr(o) else NotImplemented

    def __le__(self, o):
        return mkbool(str_lt(self, o, True)) if isstr(o) else NotImplemented

    def __gt__(self, o):
        return mkbool(str_lt(o, self, False)) if isstr(o) else NotImplemented

    def __ge__(self, o):
        return mkbool(str_lt(o, self, True)) if isstr(o) else NotImplemented

    def __hash__(self):
        return hash(self.realize())

    def realize(self):
        return ''.join(chr(_conc_char(c, 'string')) for c in self.c)

    def __contains__(self, o):
        if not isstr(o):
            raise TypeError("'in <string>' requires string as left operand")
        return self.find(o) >= 0

    def _match_at(self, i, sub):
        cs = [ch_eq(a, b) for a, b in zip(self.c[i:i + len(sub)], sub)]
        return CUR.branch(z3.And(cs) if cs else z3.BoolVal(True))

    def find(self, sub, start=0, end=None):
        if not isstr(sub):
            raise TypeError('must be str')
        return find_str(self, sub, start, end)

    def rfind(self, sub, start=0, end=None):
        n = len(self.c)
        start, end, _ = slice(start, end).indices(n)
        sub = chars_of(sub)
        for i in range(end - len(sub), start - 1, -1):
            if self._match_at(i, sub):
                return i
        return -1

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=0, end=None):
        n, i = 0, start
        if not len(sub):
            return len(self.c) + 1
        while True:
            i = self.find(sub, i, end)
            if i < 0:
                return n
            n += 1
            i += len(sub)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        s = self.c[slice(start, end)]
        if len(p) > len(s):
            return False
        return mkbool(str_eq(mkstr(s[:len(p)]), p))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        s = self.c[slice(start, end)]
        if len(p) > len(s):
            return False
        return mkbool(str_eq(mkstr(s[len(s) - len(p):]), p))

    def lower(self):
        return mkstr(map_chars(self.c, 'lower'))

    def upper(self):
        return mkstr(map_chars(self.c, 'upper'))

    def casefold(self):
        return mkstr(map_chars(self.c, 'casefold'))

    def _pred(self, name):
        if not self.c:
            return False
        return mkbool(z3.And([char_class(c, pred=lambda d: getattr(chr(d), name)()) for c in self.c]))

    def isspace(self):
        return self._pred('isspace')

    def isalnum(self):
        return self._pred('isalnum')

    def isalpha(self):
        return self._pred('isalpha')

    def isdigit(self):
        return self._pred('isdigit')

    def isdecimal(self):
        return self._pred('isdecimal')

    def isnumeric(self):
        return self._pred('isnumeric')

    def islower(self):
        return mkbool(to_z3bool(self.lower() == self)) if len(self.c) else False

    def isupper(self):
        return mkbool(to_z3bool(self.upper() == self)) if len(self.c) else False

    def isascii(self):
        return mkbool(z3.And([ch_e(c) < 128 for c in self.c]))

    def _isin(self, c, chars):
        if chars is None:
            return CUR.branch(char_class(c, pred=lambda d: chr(d).isspace()))
        return CUR.branch(z3.Or([ch_eq(c, k) for k in chars_of(chars)]) if len(chars) else z3.BoolVal(False))

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.c) and self._isin(self.c[i], chars):
            i += 1
        return mkstr(self.c[i:])

    def rstrip(self, chars=None):
        i = len(self.c)
        while i > 0 and self._isin(self.c[i - 1], chars):
            i -= 1
        return mkstr(self.c[:i])

    def strip(self, chars=None):
        s = self.rstrip(chars)
        return s.lstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            for idx, c in enumerate(self.c):
                if self._isin(c, None):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                        out.append(SStr(self.c[idx:]).rstrip() if deep_chars(self.c[idx:]) else mkstr(self.c[idx:]).rstrip())
                        return out
                    cur.append(c)
            if cur:
                out.append(mkstr(cur))
            return out
        i = 0
        while True:
            j = self.find(sep, i) if maxsplit < 0 or len(out) < maxsplit else -1
            if j < 0:
                out.append(mkstr(self.c[i:]))
                return out
            out.append(mkstr(self.c[i:j]))
            i = j + len(sep)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return mkstr(self.c[:i]), sep, mkstr(self.c[i + len(sep):])

    def replace(self, a, b, count=-1):
        return join_str(b, self.split(a, count))

    def join(self, seq):
        return join_str(self, seq)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def ljust(self, n, fill=' '):
        return self + fill * max(0, n - len(self))

    def rjust(self, n, fill=' '):
        return fill * max(0, n - len(self)) + self

    def zfill(self, n):
        return self.rjust(n, '0')

    def encode(self, encoding='utf-8', errors='strict'):
        raise Unsupported('encode of a symbolic string')

    def format(self, *a, **k):
        raise Unsupported('format on a symbolic string')

    def __repr__(self):
        return "'<sym str>'"

    def __str__(self):
        return '<sym str>'

    def __format__(self, s):
        return '<sym str>'


def deep_chars(cs):
    return any(not isinstance(c, int) for c in cs)


def find_str(s, sub, start=0, end=None):
    c = chars_of(s)
    n = len(c)
    start, end, _ = slice(start, end).indices(n)
    sc = chars_of(sub)
    for i in range(start, end - len(sc) + 1):
        cs = [ch_eq(a, b) for a, b in zip(c[i:i + len(sc)], sc)]
        if CUR.branch(z3.And(cs) if cs else z3.BoolVal(True)):
            return i
    return -1


def join_str(sep, seq):
    out = []
    first = True
    sc = chars_of(sep)
    for i, x in enumerate(seq):
        if not isstr(x):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
        if not first:
            out.extend(sc)
        out.extend(chars_of(x))
        first = False
    return mkstr(out)
