"""Model of the re module: the real one on concrete strings, a backtracking
matcher over the parsed pattern when the string or the pattern is symbolic."""
import re as _re
import re._parser as _parser
import re._constants as C
import types

import z3

from .. import core
from ..core import Ch, SStr, Unsupported, ch_e, ch_eq, chars_of, mkstr, char_class, isstr

PH = 0xF0000            # placeholders for symbolic pattern characters
SPECIAL = frozenset(map(ord, '.^$*+?{}[]\\|()'))
VSPECIAL = SPECIAL | frozenset(map(ord, ' \t\n\r\v\f#'))
ESC = frozenset(map(ord, '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'))
ALNUM = frozenset(i for i in range(128) if chr(i).isalnum())


def _in_set(c, points):
    if isinstance(c, int):
        return c in points
    pts = points if c.dom is None else [p for p in points if p in c.dom]
    return core.CUR.branch(core.in_intervals(c.e, core.intervals(pts)))


def escape(p):
    if isinstance(p, str):
        return _re.escape(p)
    out = []
    for c in chars_of(p):
        if _in_set(c, ESC):
            out.append(ord('\\'))
        out.append(c)
    return mkstr(out)


def _concretize_pattern(p, flags):
    """(concrete pattern with placeholders, list of symbolic characters)"""
    special = VSPECIAL if flags & _re.VERBOSE else SPECIAL
    out, syms = [], []
    esc = False
    inset = False
    for c in chars_of(p):
        if isinstance(c, int):
            out.append(chr(c))
            if esc:
                esc = False
            elif c == 92:
                esc = True
            elif c == 91:
                inset = True
            elif c == 93:
                inset = False
            continue
        if esc:
            esc = False
            if _in_set(c, ALNUM):
                out.append(chr(core._conc_char(c, 're')))
                continue
        elif _in_set(c, special) or inset:
            k = core._conc_char(c, 're')
            out.append(chr(k))
            if k == 92:
                esc = True
            elif k == 91:
                inset = True
            elif k == 93:
                inset = False
            continue
        out.append(chr(PH + len(syms)))
        syms.append(c)
    return ''.join(out), syms


_CASES = {}


def _ci_variants(k):
    if k not in _CASES:
        s = {k}
        for f in ('lower', 'upper'):
            t = getattr(chr(k), f)()
            if len(t) == 1:
                s.add(ord(t))
        _CASES[k] = s
    return _CASES[k]


_CATPRED = {
    C.CATEGORY_DIGIT: lambda ch: ch.isdecimal(),
    C.CATEGORY_SPACE: lambda ch: ch.isspace(),
    C.CATEGORY_WORD: lambda ch: ch.isalnum() or ch == '_',
    C.CATEGORY_NOT_DIGIT: lambda ch: not ch.isdecimal(),
    C.CATEGORY_NOT_SPACE: lambda ch: not ch.isspace(),
    C.CATEGORY_NOT_WORD: lambda ch: not (ch.isalnum() or ch == '_'),
}


class Prog:
    def __init__(self, tree, syms, flags):
        self.tree, self.syms, self.flags = tree, syms, flags

    def lit(self, k):
        return self.syms[k - PH] if PH <= k < PH + len(self.syms) else k

    def cat(self, c, cat, flags):
        f = _CATPRED.get(cat)
        if f is None:
            raise Unsupported('regex category %s' % cat)
        if flags & _re.ASCII:
            g = f
            neg = 'NOT' in str(cat)

            def f(ch, g=g, neg=neg):
                return g(ch) if ord(ch) < 128 else neg
        return char_class(c, pred=lambda d: f(chr(d)))

    def eqlit(self, c, k, flags):
        k = self.lit(k)
        if flags & _re.IGNORECASE:
            if isinstance(k, int):
                return z3.Or([ch_eq(c, v) for v in sorted(_ci_variants(k))])
            if k.dom is None:
                a, b = core.map_chars([c], 'lower'), core.map_chars([k], 'lower')
                return z3.And(ch_eq(a[0], b[0])) if len(a) == len(b) == 1 else ch_eq(c, k)
            return z3.Or([ch_eq(c, k)] + [z3.And(ch_eq(k, a), z3.Or([ch_eq(c, v) for v in sorted(_ci_variants(a))]))
                                          for a in sorted(k.dom) if len(_ci_variants(a)) > 1])
        return ch_eq(c, k)

    def inset(self, c, items, flags):
        neg, cs = False, []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                cs.append(self.eqlit(c, av, flags))
            elif op is C.RANGE:
                lo, hi = av
                if flags & _re.IGNORECASE:
                    pts = set()
                    for k in range(lo, min(hi, 0x3000) + 1):
                        pts |= _ci_variants(k)
                    # variants of the character itself
                    cs.append(core.in_intervals(ch_e(c), core.intervals(pts)))
                else:
                    cs.append(z3.And(ch_e(c) >= lo, ch_e(c) <= hi))
            elif op is C.CATEGORY:
                cs.append(self.cat(c, av, flags))
            else:
                raise Unsupported('regex set item %s' % op)
        e = z3.Or(cs) if cs else z3.BoolVal(False)
        return z3.Not(e) if neg else e

    # m(node list, index, position, groups) -> generator of (position, groups)
    def m(self, seq, n, i, g, s, flags):
        if n == len(seq):
            yield i, g
            return
        op, av = seq[n]
        c = s.c
        br = core.CUR.branch

        def one(e):
            return i < s.end and br(e(c[i]))
        if op is C.LITERAL:
            if one(lambda x: self.eqlit(x, av, flags)):
                yield from self.m(seq, n + 1, i + 1, g, s, flags)
        elif op is C.NOT_LITERAL:
            if one(lambda x: z3.Not(self.eqlit(x, av, flags))):
                yield from self.m(seq, n + 1, i + 1, g, s, flags)
        elif op is C.ANY:
            if one(lambda x: z3.BoolVal(True) if flags & _re.DOTALL else z3.Not(ch_eq(x, 10))):
                yield from self.m(seq, n + 1, i + 1, g, s, flags)
        elif op is C.IN:
            if one(lambda x: self.inset(x, av, flags)):
                yield from self.m(seq, n + 1, i + 1, g, s, flags)
        elif op is C.BRANCH:
            for alt in av[1]:
                for j, h in self.m(alt, 0, i, g, s, flags):
                    yield from self.m(seq, n + 1, j, h, s, flags)
        elif op is C.SUBPATTERN:
            grp, add, rem, sub = av
            f = (flags | add) & ~rem
            for j, h in self.m(sub, 0, i, g, s, f):
                if grp is not None:
                    h = dict(h)
                    h[grp] = (i, j)
                    h['last'] = grp
                yield from self.m(seq, n + 1, j, h, s, flags)
        elif op is C.ATOMIC_GROUP:
            for j, h in self.m(av, 0, i, g, s, flags):
                yield from self.m(seq, n + 1, j, h, s, flags)
                return
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            if op is C.POSSESSIVE_REPEAT:
                for j, h in self.rep(sub, lo, hi, 0, i, g, s, flags, True):
                    yield from self.m(seq, n + 1, j, h, s, flags)
                    return
                return
            for j, h in self.rep(sub, lo, hi, 0, i, g, s, flags, op is C.MAX_REPEAT):
                yield from self.m(seq, n + 1, j, h, s, flags)
        elif op is C.AT:
            if self.at(av, i, s, flags):
                yield from self.m(seq, n + 1, i, g, s, flags)
        elif op is C.GROUPREF:
            if av not in g:
                return
            a, b = g[av]
            k = b - a
            if i + k <= s.end and br(z3.And([ch_eq(x, y) for x, y in zip(c[a:b], c[i:i + k])] or
                                            [z3.BoolVal(True)])):
                yield from self.m(seq, n + 1, i + k, g, s, flags)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            ok, h = False, g
            if d > 0:
                for _, h in self.m(sub, 0, i, g, s, flags):
                    ok = True
                    break
            else:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported('variable look-behind')
                if i - lo >= 0:
                    for j, h in self.m(sub, 0, i - lo, g, s, flags):
                        ok = True
                        break
            if ok == (op is C.ASSERT):
                yield from self.m(seq, n + 1, i, h if ok else g, s, flags)
        elif op is C.FAILURE:
            return
        else:
            raise Unsupported('regex op %s' % op)

    def rep(self, sub, lo, hi, k, i, g, s, flags, greedy):
        if not greedy and k >= lo:
            yield i, g
        if hi is C.MAXREPEAT or k < hi:
            for j, h in self.m(sub, 0, i, g, s, flags):
                if j == i and k >= lo:
                    continue
                yield from self.rep(sub, lo, hi, k + 1, j, h, s, flags, greedy)
        if greedy and k >= lo:
            yield i, g

    def word(self, c, flags):
        return self.cat(c, C.CATEGORY_WORD, flags)

    def at(self, av, i, s, flags):
        br = core.CUR.branch
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if i == 0:
                return True
            if av is C.AT_BEGINNING and flags & _re.MULTILINE:
                return br(ch_eq(s.c[i - 1], 10))
            return False
        if av is C.AT_END:
            if i == s.end:
                return True
            if flags & _re.MULTILINE or i == s.end - 1:
                return br(ch_eq(s.c[i], 10))
            return False
        if av is C.AT_END_STRING:
            return i == s.end
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and br(self.word(s.c[i - 1], flags))
            b = i < s.end and br(self.word(s.c[i], flags))
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported('regex position %s' % av)


class Subject:
    def __init__(self, chars, end):
        self.c, self.end = chars, end


class Pattern:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        if isinstance(pattern, SStr):
            conc, syms = _concretize_pattern(pattern, flags)
            if not syms:
                self.pattern = conc
            self._real = _re.compile(conc, flags)
            self._syms = syms
            self._conc = conc
        else:
            self._real = _re.compile(pattern, flags)
            self._syms = []
            self._conc = pattern
        self.flags = self._real.flags
        self.groups = self._real.groups
        self.groupindex = self._real.groupindex
        self._prog = None

    def _p(self):
        if self._prog is None:
            t = _parser.parse(self._conc, self._real.flags & ~_re.DEBUG)
            self._prog = Prog(t, self._syms, self._real.flags)
        return self._prog

    def _conc_ok(self, s):
        return not self._syms and not isinstance(s, SStr)

    def _try(self, s, i, end, full=False, notempty=False):
        p = self._p()
        sub = Subject(chars_of(s), end)
        for j, g in p.m(p.tree, 0, i, {}, sub, p.flags):
            if full and j != end:
                continue
            if notempty and j == i:
                continue
            return Match(self, s, i, j, g)
        return None

    def _bounds(self, s, pos, endpos):
        n = len(s)
        end = n if endpos is None else max(0, min(n, int(endpos)))
        return max(0, min(int(pos), n)), end

    def match(self, s, pos=0, endpos=None):
        if not isstr(s):
            raise TypeError('expected string or bytes-like object')
        if self._conc_ok(s):
            return self._real.match(s, pos, *(() if endpos is None else (endpos,)))
        i, end = self._bounds(s, pos, endpos)
        return self._try(s, i, end) if i <= end else None

    def fullmatch(self, s, pos=0, endpos=None):
        if self._conc_ok(s):
            return self._real.fullmatch(s, pos, *(() if endpos is None else (endpos,)))
        i, end = self._bounds(s, pos, endpos)
        return self._try(s, i, end, True) if i <= end else None

    def search(self, s, pos=0, endpos=None):
        if not isstr(s):
            raise TypeError('expected string or bytes-like object')
        if self._conc_ok(s):
            return self._real.search(s, pos, *(() if endpos is None else (endpos,)))
        i, end = self._bounds(s, pos, endpos)
        while i <= end:
            m = self._try(s, i, end)
            if m is not None:
                return m
            i += 1
        return None

    def finditer(self, s, pos=0, endpos=None):
        if not isstr(s):
            raise TypeError('expected string or bytes-like object, got %r' % type(s).__name__)
        if self._conc_ok(s):
            yield from self._real.finditer(s, pos, *(() if endpos is None else (endpos,)))
            return
        i, end = self._bounds(s, pos, endpos)
        must = False
        while i <= end:
            m = self._try(s, i, end, notempty=must)
            if m is None:
                must = False
                i += 1
                continue
            yield m
            must = m.end() == m.start()
            i = m.end()

    def findall(self, s, pos=0, endpos=None):
        if not isstr(s):
            raise TypeError('expected string or bytes-like object, got %r' % type(s).__name__)
        if self._conc_ok(s):
            return self._real.findall(s, pos, *(() if endpos is None else (endpos,)))
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                g = m.group(1)
                out.append('' if g is None else g)
            else:
                out.append(tuple('' if g is None else g for g in m.groups()))
        return out

    def _expand(self, repl, m):
        if callable(repl):
            return repl(m)
        if isinstance(repl, SStr):
            raise Unsupported('symbolic replacement')
        if '\\' not in repl:
            return repl
        t = _parser.parse_template(repl, self._real)
        parts = []
        for x in t:
            if isinstance(x, int):
                g = m.group(x)
                parts.append('' if g is None else g)
            else:
                parts.append(x)
        return core.join_str('', parts)

    def subn(self, repl, s, count=0):
        if self._conc_ok(s) and not isinstance(repl, SStr) and not callable(repl):
            return self._real.subn(repl, s, count)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(s[pos:m.start()])
            out.append(self._expand(repl, m))
            pos = m.end()
            n += 1
        out.append(s[pos:])
        return core.join_str('', out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if self._conc_ok(s):
            return self._real.split(s, maxsplit)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[pos:m.start()])
            out.extend(m.groups())
            pos = m.end()
            n += 1
        out.append(s[pos:])
        return out

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class Match:
    def __init__(self, re, s, i, j, g):
        self.re, self.string, self._g = re, s, dict(g)
        self._g[0] = (i, j)
        self.pos, self.endpos = 0, len(s)
        self.lastindex = g.get('last')

    def _k(self, k):
        return self.re.groupindex[k] if isinstance(k, str) else k

    def span(self, k=0):
        k = self._k(k)
        if k > self.re.groups:
            raise IndexError('no such group')
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, d=None):
        a, b = self.span(k)
        return d if a < 0 else self.string[a:b]

    def group(self, *ks):
        if len(ks) <= 1:
            return self._one(*(ks or (0,)))
        return tuple(self._one(k) for k in ks)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.re.groupindex.items()}

    def expand(self, t):
        return self.re._expand(t, self)

    def __bool__(self):
        return True


def make():
    m = types.ModuleType('re')
    for n in ('error I IGNORECASE M MULTILINE S DOTALL X VERBOSE A ASCII U UNICODE L LOCALE DEBUG T TEMPLATE '
              'NOFLAG RegexFlag').split():
        if hasattr(_re, n):
            setattr(m, n, getattr(_re, n))
    cache = {}

    def compile(p, flags=0):
        if isinstance(p, Pattern):
            return p
        flags = int(flags)
        if isinstance(p, SStr):
            return Pattern(p, flags)
        k = (p, flags)
        if k not in cache:
            cache[k] = Pattern(p, flags)
        return cache[k]
    m.compile = compile
    m.escape = escape
    m.Pattern, m.Match = Pattern, Match
    m.purge = lambda: None
    for n in 'match fullmatch search findall finditer'.split():
        setattr(m, n, lambda p, s, flags=0, n=n: getattr(compile(p, flags), n)(s))
    m.split = lambda p, s, maxsplit=0, flags=0: compile(p, flags).split(s, maxsplit)
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: compile(p, flags).subn(r, s, count)
    return m
