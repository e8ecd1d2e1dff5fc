#!/usr/bin/env python3
"""Compares the models used during symbolic execution with the real libraries."""
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/bin/python3'
if not sys.prefix.startswith('/opt/veriftools') and os.path.exists(VT):
    os.execv(VT, [VT] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from symex import core, loader, real      # noqa: E402

real.setup(None)
import re as RE      # noqa: E402
import importlib     # noqa: E402

rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
core.set_current(core.Path([], core.Stats()))
mods = loader.static_modules()
count = [0]


def plain(x, deep=0):
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, tuple):
        return tuple(plain(i) for i in x)
    if isinstance(x, list):
        return [plain(i) for i in x]
    if hasattr(x, 'items'):
        return [(plain(a), plain(b)) for a, b in x.items()]
    try:
        return [plain(i) for i in x]
    except TypeError:
        return type(x).__name__


def run(f):
    try:
        return ('ok', plain(f()))
    except core.EngineAbort:
        raise
    except Exception as e:
        return ('exc', type(e).__name__)


def same(what, f, g):
    count[0] += 1
    a, b = run(f), run(g)
    if a[0] == 'exc' and b[0] == 'exc' and {a[1], b[1]} <= {'TypeError', 'ValueError', 'OverflowError'}:
        return
    if a != b:
        print('MODEL MISMATCH %s: model %r real %r' % (what, a, b))
        sys.exit(1)


BIG = [-2 ** 31, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, 2 ** 63, -2 ** 63]


def key(code):
    if code == 'O':
        return rnd.choice('abcdef')
    return rnd.choice(BIG) if rnd.random() < .08 else rnd.randrange(6)


def val(code):
    if code == 'O':
        return rnd.choice('abc')
    if code == 'F':
        return rnd.choice((.5, 1., 2, 3.25))
    return rnd.choice(BIG) if rnd.random() < .05 else rnd.randrange(4)


def btrees(rounds):
    for name in ('IIBTree', 'IOBTree', 'IFBTree', 'LFBTree', 'LLBTree', 'LOBTree', 'OOBTree', 'OIBTree'):
        kc, vc = name[0], name[1]
        M, R = mods['BTrees.' + name], importlib.import_module('BTrees.' + name)
        p = name[:2]
        for _ in range(rounds):
            objs = []
            for cls in ('BTree', 'Bucket', 'TreeSet', 'Set'):
                m, r = getattr(M, p + cls)(), getattr(R, p + cls)()
                isset = cls in ('TreeSet', 'Set')
                for _ in range(rnd.randrange(9)):
                    k, v, k2 = key(kc), val(vc), key(kc)
                    op = rnd.randrange(10)
                    w = '%s%s op %d %r %r' % (p, cls, op, k, v)
                    if op < 5:
                        if isset:
                            same(w, lambda: m.insert(k), lambda: r.insert(k))
                        else:
                            same(w, lambda: m.__setitem__(k, v), lambda: r.__setitem__(k, v))
                    elif op == 5:
                        if isset:
                            same(w, lambda: m.remove(k), lambda: r.remove(k))
                        else:
                            same(w, lambda: m.__delitem__(k), lambda: r.__delitem__(k))
                    elif op == 6:
                        same(w, lambda: k in m, lambda: k in r)
                    elif op == 7:
                        w += ' %r %r' % (k2, list(r))
                        a, b = rnd.random() < .5, rnd.random() < .5
                        same(w, lambda: list(m.keys(k, k2, a, b)), lambda: list(r.keys(k, k2, a, b)))
                    elif op == 8:
                        same(w, lambda: (m.minKey(k), m.maxKey(k2)), lambda: (r.minKey(k), r.maxKey(k2)))
                    elif not isset:
                        same(w, lambda: (m.get(k), m.setdefault(k2, v)), lambda: (r.get(k), r.setdefault(k2, v)))
                    same(w, lambda: (len(m), bool(m), m), lambda: (len(r), bool(r), r))
                objs.append((m, r))
            for _ in range(6):
                (a, ra), (b, rb) = rnd.choice(objs), rnd.choice(objs)
                for f in ('union', 'intersection', 'difference'):
                    same('%s %s' % (name, f),
                         lambda: (lambda x: (type(x).__name__, x))(getattr(M, f)(a, b)),
                         lambda: (lambda x: (type(x).__name__, x))(getattr(R, f)(ra, rb)))
                if hasattr(R, 'multiunion'):
                    same('multiunion', lambda: M.multiunion([a, b, a]), lambda: R.multiunion([ra, rb, ra]))
                w1, w2 = rnd.choice((1, 2)), rnd.choice((1, 3))
                for f in ('weightedUnion', 'weightedIntersection'):
                    # (values wrap around in C; documented as outside)
                    if hasattr(R, f) and not any(abs(x) > 100 for o in (ra, rb) if hasattr(o, 'values')
                                                 for x in o.values() if isinstance(x, int)):
                        same('%s %s' % (name, f), lambda: getattr(M, f)(a, b, w1, w2),
                             lambda: getattr(R, f)(ra, rb, w1, w2))


PATTERNS = [r'\w+', r'\w+[\w*?]*', r'<[^<>]*>', r'&[A-Za-z]+;', r'[a-z]*?b', r'a.*b', r'(a|bc)+x?', r'^ab', r'b$',
            r'a{1,2}', r'[^ab]', r'\s+', r'-?"[^"]*"|[()]|[^()\s"]+', r'[\x80-\xff]', r'(?=a)a', r'\bx', r'a\Z', r'\d+']


def regexes(rounds):
    M = mods['re']
    for pat in PATTERNS:
        for fl in (0, RE.I, RE.S):
            for _ in range(rounds):
                s = ''.join(rnd.choice('abcx<>&;*? "-()\n_1\xe9\x80A') for _ in range(rnd.randrange(9)))
                i = rnd.randrange(len(s) + 1)

                def both(f):
                    try:
                        same('%r %r' % (pat, s), lambda: f(M), lambda: f(RE))
                    except core.Unsupported:
                        pass

                def grp(m):
                    return m and (m.group(), m.span(), m.groups())
                both(lambda L: L.compile(pat, fl).findall(s))
                both(lambda L: L.compile(pat, fl).sub(' ', s))
                both(lambda L: grp(L.compile(pat, fl).match(s, i)))
                both(lambda L: grp(L.compile(pat, fl).search(s, i)))
                both(lambda L: grp(L.compile(pat, fl).fullmatch(s)))
                both(lambda L: L.compile(pat, fl).split(s))
                both(lambda L: [grp(m) for m in L.compile(pat, fl).finditer(s)])
                both(lambda L: L.escape(s))


if __name__ == '__main__':
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 25
    btrees(n)
    regexes(n)
    print('models agree with the real libraries on %d comparisons' % count[0])
