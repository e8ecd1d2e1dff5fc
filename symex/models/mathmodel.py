"""math over symbolic reals.

log and sqrt are uninterpreted functions with the axioms needed here (sign,
monotonicity between the arguments met on the path, log 1 = 0, sqrt(x)^2 = x).
On concrete arguments the real functions are used.
"""
import math as _math
import types
from fractions import Fraction

import z3

from .. import core
from ..core import SBool, SInt, SReal, Sym, Unsupported

LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def _arg(x):
    return z3.simplify(core.as_real(x))


def _note(kind, a, v):
    p = core.CUR
    seen = p.__dict__.setdefault('mathargs', {}).setdefault(kind, [])
    for b, w in seen:
        if b.eq(a):
            return
    for b, w in seen:
        p.assume(z3.And(z3.Implies(a < b, v < w), z3.Implies(b < a, w < v), z3.Implies(a == b, v == w)))
    seen.append((a, v))


def log(x, base=None):
    if base is not None:
        return log(x) / log(base)
    if not isinstance(x, Sym):
        return _math.log(x)
    a = _arg(x)
    if core.CUR.branch(a <= 0):
        raise ValueError('math domain error')
    v = LOG(a)
    # sign
    core.CUR.assume(z3.And((a > 1) == (v > 0), (a < 1) == (v < 0)))
    _note('log', a, v)
    return SReal(v)


def log1p(x):
    return log(1 + x) if isinstance(x, Sym) else _math.log1p(x)


def sqrt(x):
    if not isinstance(x, Sym):
        return _math.sqrt(x)
    a = _arg(x)
    if core.CUR.branch(a < 0):
        raise ValueError('math domain error')
    v = SQRT(a)
    core.CUR.assume(z3.And(v >= 0, v * v == a))
    return SReal(v)


def floor(x):
    if isinstance(x, SReal):
        return SInt(z3.ToInt(x.e))
    if isinstance(x, SInt):
        return x
    return _math.floor(x)


def ceil(x):
    if isinstance(x, SReal):
        return SInt(-z3.ToInt(-x.e))
    if isinstance(x, SInt):
        return x
    return _math.ceil(x)


def fsum(it):
    r = 0.0
    for x in it:
        r = r + x
    return r


def mpow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return (a if isinstance(a, SReal) else SReal(core.as_real(a))) ** b
    return _math.pow(a, b)


def hypot(*a):
    if any(isinstance(x, Sym) for x in a):
        return sqrt(fsum(x * x for x in a))
    return _math.hypot(*a)


def fabs(x):
    return abs(x) if isinstance(x, Sym) else _math.fabs(x)


def prod(it, start=1):
    r = start
    for x in it:
        r = r * x
    return r


def make():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in _math.__dict__.items() if not k.startswith('__')})
    m.__dict__.update(log=log, log1p=log1p, sqrt=sqrt, floor=floor, ceil=ceil, fsum=fsum, pow=mpow, hypot=hypot,
                      fabs=fabs, prod=prod)
    return m
