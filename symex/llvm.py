"""Reader of (textual) LLVM IR and symbolic interpreter of its functions.

Integers are Python ints in the signed range of their width, or SInt; floats
are Python floats or SReal (real numbers); pointers are (object, offset).
External functions are supplied by the caller.
"""
import re
import struct

from . import core
from .core import SBool, SInt, SReal, Unsupported

TOK = re.compile(r'''\s*(?:(;.*)|(c?"(?:[^"])*")|([%@](?:"[^"]*"|[\w.$-]+))|(-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)'''
                 r'''|(\.\.\.)|([A-Za-z_][\w.]*)|(!\d+|![A-Za-z_.]\w*|\#\d+)|([\[\]{}(),=*<>!:]))''')
ATTRS = {'noundef', 'nonnull', 'nocapture', 'readnone', 'readonly', 'writeonly', 'noalias', 'signext', 'zeroext',
         'returned', 'immarg', 'inreg', 'noreturn', 'nofree', 'dso_local', 'internal', 'local_unnamed_addr',
         'unnamed_addr', 'private', 'hidden', 'fastcc', 'ccc', 'tail', 'musttail', 'notail', 'nuw', 'nsw', 'exact',
         'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'nneg',
         'volatile', 'external', 'global', 'constant', 'linkonce_odr', 'weak', 'common', 'dllexport', 'available_externally',
         'nusw', 'samesign', 'allocptr', 'dead_on_unwind', 'writable', 'extern_weak', 'default'}


def tokens(line):
    out, i = [], 0
    n = len(line)
    while i < n:
        m = TOK.match(line, i)
        if not m:
            if not line[i:].strip():
                break
            raise Unsupported('LLVM IR: ' + line[i:i + 40])
        i = m.end()
        if m.group(1) is not None:
            break
        out.append(m.group(0).strip())
    return out


class T:
    """cursor over tokens"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        if x is None:
            raise Unsupported('LLVM IR: end of line')
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('LLVM IR: %s instead of %s in %s' % (y, x, ' '.join(self.t)[:80]))

    def attrs(self):
        while True:
            p = self.peek()
            if p in ATTRS:
                self.i += 1
            elif p == 'align':
                self.i += 1
                if self.eat('('):
                    self.next()
                    self.need(')')
                else:
                    self.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'allockind', 'allocsize', 'captures',
                       'range', 'nofpclass', 'initializes', 'sret', 'byval'):
                self.i += 1
                self.need('(')
                d = 1
                while d:
                    x = self.next()
                    d += (x == '(') - (x == ')')
            else:
                return


class Type:
    __slots__ = ('k', 'n', 'el')

    def __init__(self, k, n=0, el=None):
        self.k, self.n, self.el = k, n, el


PTR, VOID, DOUBLE, FLOAT = Type('ptr', 64), Type('void'), Type('double', 64), Type('float', 32)
LABEL = Type('label')


class Obj:
    """a block of memory"""
    __slots__ = ('name', 'cells', 'zero', 'freed', 'py', 'base', 'value', 'borrow')

    def __init__(self, name, zero=False):
        self.name, self.cells, self.zero, self.freed = name, {}, zero, False
        self.py, self.base, self.value, self.borrow = False, 0, None, None

    def __repr__(self):
        return '<%s>' % self.name


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off=0):
        self.o, self.off = o, off

    def same(self, q):
        return self.o is q.o and self.off == q.off


NULL = Ptr(None, 0)


class Undef:
    pass


UNDEF = Undef()


class Function:
    __slots__ = ('name', 'params', 'blocks', 'order', 'ret')


class Module:
    def __init__(self, text):
        self.types, self.globals, self.functions, self.decl = {}, {}, {}, set()
        lines = text.split('\n')
        i = 0
        self._gl = {}
        while i < len(lines):
            line = lines[i]
            i += 1
            if line.startswith('%') and ' = type ' in line:
                name, _, rest = line.partition(' = type ')
                self.types[name.strip()] = rest.strip()
            elif line.startswith('@'):
                name, _, rest = line.partition(' = ')
                self._gl[name.strip()] = rest
            elif line.startswith('declare'):
                m = re.search(r'@([\w.$]+)\(', line)
                self.decl.add(m.group(1))
            elif line.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._function(line, body)
        self._tcache = {}

    # ---------------------------------------------------------- types
    def type(self, t):
        x = t.next()
        r = None
        if x == 'ptr':
            r = PTR
            if t.eat('addrspace'):
                raise Unsupported('LLVM IR: address space')
        elif x == 'void':
            r = VOID
        elif x == 'double':
            r = DOUBLE
        elif x == 'float':
            r = FLOAT
        elif x == 'label':
            r = LABEL
        elif x == 'metadata':
            r = Type('metadata')
        elif re.fullmatch(r'i\d+', x):
            r = Type('int', int(x[1:]))
        elif x[0] == '%':
            r = self.named(x)
        elif x == '[':
            n = int(t.next())
            t.need('x')
            el = self.type(t)
            t.need(']')
            r = Type('array', n, el)
        elif x == '{':
            els = []
            while not t.eat('}'):
                els.append(self.type(t))
                t.eat(',')
            r = Type('struct', 0, els)
        elif x == 'opaque':
            r = Type('struct', 0, [])
        else:
            raise Unsupported('LLVM IR: type ' + x)
        if t.peek() == '(':
            # function type
            d = 0
            while True:
                y = t.next()
                d += (y == '(') - (y == ')')
                if not d:
                    break
        return r

    def named(self, n):
        if n not in self._tcache:
            if n not in self.types:
                raise Unsupported('LLVM IR: type ' + n)
            self._tcache[n] = self.type(T(tokens(self.types[n])))
        return self._tcache[n]

    def align(self, ty):
        if ty.k == 'int':
            return max(1, min(8, ty.n // 8))
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k == 'array':
            return self.align(ty.el)
        if ty.k == 'struct':
            return max([self.align(x) for x in ty.el] or [1])
        raise Unsupported('LLVM IR: alignment')

    def size(self, ty):
        if ty.k == 'int':
            return max(1, ty.n // 8)
        if ty.k in ('ptr', 'double'):
            return 8
        if ty.k == 'float':
            return 4
        if ty.k == 'array':
            return ty.n * self.size(ty.el)
        if ty.k == 'struct':
            return self.offset(ty, len(ty.el))
        raise Unsupported('LLVM IR: size')

    def offset(self, ty, i):
        o = 0
        for j, x in enumerate(ty.el):
            a = self.align(x)
            o = (o + a - 1) // a * a
            if j == i:
                return o
            o += self.size(x)
        a = self.align(ty)
        return (o + a - 1) // a * a

    # ------------------------------------------------------ functions
    def _function(self, head, body):
        t = T(tokens(head))
        while t.peek() is not None and not (t.peek()[0] == '@'):
            t.i += 1
        f = Function()
        f.name = t.next()[1:]
        t.need('(')
        f.params = []
        d = 1
        last = None
        while d:
            x = t.next()
            d += (x == '(') - (x == ')')
            if x[0] == '%' and d == 1 and t.peek() in (',', ')'):
                last = x
            if (x == ',' and d == 1 or not d) and last is not None:
                f.params.append(last)
                last = None
        f.blocks, f.order = {}, []
        lines = []
        for l in body:
            l = l.split(' ; preds')[0] if ' ; preds' in l else l
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            lines.append(s)
        # the entry block may be unnamed: its number is the one after the parameters
        cur = None
        m = re.match(r'^([\w.$-]+):', lines[0]) if lines else None
        i = 0
        if not m:
            cur = '%' + str(len(f.params))
            f.blocks[cur] = []
            f.order.append(cur)
        while i < len(lines):
            s = lines[i]
            i += 1
            m = re.match(r'^("?[\w.$-]+"?):', s)
            if m:
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                while not lines[i].startswith(']'):
                    s += ' ' + lines[i]
                    i += 1
                s += ' ]'
                i += 1
            f.blocks[cur].append(tokens(s.split(', !')[0] if ', !' in s else s))
        self.functions[f.name] = f


def wrap(v, n):
    if isinstance(v, int):
        v &= (1 << n) - 1
        return v - (1 << n) if v >> (n - 1) else v
    h, m = 1 << (n - 1), 1 << n
    if core._proved((core.as_int(v) >= -h)) and core._proved(core.as_int(v) < h):
        return v
    return (v + h) % m - h


def unsigned(v, n):
    return v % (1 << n)


class Interp:
    """executes functions of a module; ext maps names to Python functions
    taking (interp, args) and returning a value"""

    MAX = 200000

    def __init__(self, mod, ext, globals=None):
        self.m, self.ext = mod, ext
        self.gl = {}
        self.given = globals or {}
        self.steps = 0

    # ---------------------------------------------------------- memory
    def glob(self, name):
        """pointer to a global"""
        if name in self.gl:
            return self.gl[name]
        n = name[1:]
        if n in self.m.functions or n in self.m.decl:
            r = Ptr(Obj('@' + n))
            r.o.value = n
        elif n in self.given:
            r = self.given[n](self)
        elif name in self.m._gl:
            src = self.m._gl[name]
            o = Obj(n)
            r = Ptr(o)
            self.gl[name] = r
            t = T(tokens(src))
            ext = 'external' in src.split()
            t.attrs()
            ty = self.m.type(t)
            if ext:
                raise Unsupported('external variable ' + n)
            self.init(o, 0, ty, t)
        else:
            raise Unsupported('global ' + name)
        self.gl[name] = r
        return r

    def init(self, o, off, ty, t):
        p = t.peek()
        if p in ('zeroinitializer', 'undef', 'poison'):
            t.next()
            self.zero(o, off, ty)
        elif ty.k == 'array' and p.startswith('c"'):
            s = t.next()[2:-1]
            i = 0
            k = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        c, i = 92, i + 2
                    else:
                        c, i = int(s[i + 1:i + 3], 16), i + 3
                else:
                    c, i = ord(s[i]), i + 1
                o.cells[off + k] = (1, c if c < 128 else c - 256)
                k += 1
        elif ty.k == 'array':
            t.need('[')
            for i in range(ty.n):
                e = self.m.type(t)
                self.init(o, off + i * self.m.size(ty.el), e, t)
                t.eat(',')
            t.need(']')
        elif ty.k == 'struct':
            t.need('{')
            for i in range(len(ty.el)):
                e = self.m.type(t)
                self.init(o, off + self.m.offset(ty, i), e, t)
                t.eat(',')
            t.need('}')
        else:
            v = self.value(ty, t, {})
            o.cells[off] = (self.m.size(ty), v)

    def zero(self, o, off, ty):
        if ty.k == 'array':
            for i in range(ty.n):
                self.zero(o, off + i * self.m.size(ty.el), ty.el)
        elif ty.k == 'struct':
            for i, e in enumerate(ty.el):
                self.zero(o, off + self.m.offset(ty, i), e)
        else:
            o.cells[off] = (self.m.size(ty), NULL if ty.k == 'ptr' else 0.0 if ty.k in ('double', 'float') else 0)

    def load(self, ty, p):
        if not isinstance(p, Ptr):
            raise Unsupported('load from ' + repr(p))
        if p.o is None:
            raise CrashError('a NULL pointer is read')
        if p.o.freed:
            raise CrashError('freed memory is read')
        n = self.m.size(ty)
        c = p.o.cells.get(p.off)
        if c is None:
            # part of an integer?
            for off, (w, v) in p.o.cells.items():
                if off <= p.off and p.off + n <= off + w and isinstance(v, int) and ty.k == 'int':
                    return wrap(v >> (8 * (p.off - off)), ty.n)
            raise CrashError('%r is read at an offset (%d) it does not have' % (p.o, p.off))
        w, v = c
        if v is UNDEF:
            raise CrashError('uninitialised memory is read')
        if w == n:
            if ty.k == 'int' and isinstance(v, (bool, SBool)) and ty.n != 1:
                v = int(v) if isinstance(v, bool) else SInt(core.as_int(v))
            if ty.k == 'int' and ty.n == 1 and not isinstance(v, (bool, SBool)):
                v = v != 0
            if ty.k == 'ptr' and not isinstance(v, Ptr):
                if v == 0:
                    return NULL
                raise Unsupported('integer read as a pointer')
            if ty.k == 'int' and isinstance(v, Ptr):
                if v.o is None:
                    return 0
                raise Unsupported('pointer read as an integer')
            return v
        if w > n and ty.k == 'int' and isinstance(v, (int, SInt)):
            return wrap(v, ty.n)
        if w < n and ty.k == 'int':
            out = 0
            k = 0
            while k < n:
                c = p.o.cells.get(p.off + k)
                if c is None or not isinstance(c[1], int):
                    raise Unsupported('mixed memory')
                out |= (c[1] & ((1 << (8 * c[0])) - 1)) << (8 * k)
                k += c[0]
            return wrap(out, ty.n)
        raise Unsupported('memory read with another type')

    def store(self, ty, v, p):
        if p.o is None:
            raise CrashError('a NULL pointer is written')
        if p.o.freed:
            raise CrashError('freed memory is written')
        n = self.m.size(ty)
        c = p.o.cells.get(p.off)
        if c is not None and c[0] > n and isinstance(c[1], int) and isinstance(v, int):
            b = 8 * n
            v = wrap((c[1] >> b << b) | (v & ((1 << b) - 1)), 8 * c[0])
            n = c[0]
        p.o.cells[p.off] = (n, v)

    # ---------------------------------------------------------- values
    def value(self, ty, t, env):
        t.attrs()
        x = t.next()
        if x[0] == '%':
            if x not in env:
                raise Unsupported('LLVM IR: value ' + x)
            return env[x]
        if x[0] == '@':
            return self.glob(x)
        if x in ('null',):
            return NULL
        if x == 'true':
            return True
        if x == 'false':
            return False
        if x in ('undef', 'poison'):
            return UNDEF
        if x == 'zeroinitializer':
            return NULL if ty.k == 'ptr' else 0.0 if ty.k in ('double', 'float') else 0
        if x == 'getelementptr':
            t.attrs()
            t.need('(')
            r = self.gep(t, env)
            t.need(')')
            return r
        if ty.k in ('double', 'float'):
            if x.startswith('0x'):
                return struct.unpack('>d', int(x[2:], 16).to_bytes(8, 'big'))[0]
            return float(x)
        if ty.k == 'int' and re.fullmatch(r'-?\d+', x):
            v = int(x)
            return bool(v) if ty.n == 1 else wrap(v, ty.n)
        raise Unsupported('LLVM IR: operand ' + x)

    def typed(self, t, env):
        ty = self.m.type(t)
        return ty, self.value(ty, t, env)

    def gep(self, t, env):
        base = self.m.type(t)
        t.need(',')
        ty, p = self.typed(t, env)
        off = p.off
        first = True
        cur = base
        while t.eat(','):
            ity, i = self.typed(t, env)
            if first:
                off = off + i * self.m.size(base)
                first = False
                continue
            if cur.k == 'struct':
                off = off + self.m.offset(cur, i)
                cur = cur.el[i]
            else:
                cur = cur.el
                off = off + i * self.m.size(cur)
        if isinstance(off, SInt):
            off = core.CUR.concretize(off.e, 'address')
        return Ptr(p.o, off)

    # ------------------------------------------------------- execution
    def call(self, name, args):
        f = self.m.functions.get(name)
        if f is None:
            e = self.ext.get(name)
            if e is None:
                raise Unsupported('external function ' + name)
            return e(self, args)
        env = dict(zip(f.params, args))
        prev, cur = None, f.order[0]
        while True:
            nxt = None
            phis = {}
            body = f.blocks[cur]
            k = 0
            while k < len(body) and len(body[k]) > 2 and body[k][2] == 'phi':
                t = T(body[k])
                dest = t.next()
                t.i = 3
                t.attrs()
                ty = self.m.type(t)
                got = False
                while True:
                    t.need('[')
                    # operand read only if chosen
                    j = t.i
                    d = 0
                    while not (t.peek() == ',' and not d):
                        x = t.next()
                        d += (x in '([') - (x in ')]')
                    t.next()
                    lab = t.next()
                    t.need(']')
                    if lab == prev:
                        phis[dest] = self.value(ty, T(body[k][j:]), env)
                        got = True
                    if not t.eat(','):
                        break
                if not got:
                    raise Unsupported('LLVM IR: phi')
                k += 1
            env.update(phis)
            for toks in body[k:]:
                self.steps += 1
                if self.steps > self.MAX:
                    raise Unsupported('too many steps of C code')
                t = T(toks)
                dest = None
                if t.peek(1) == '=':
                    dest = t.next()
                    t.next()
                r = self.step(t, env)
                if isinstance(r, tuple):
                    kind, v = r
                    if kind == 'ret':
                        return v
                    nxt = v
                    break
                if dest is not None:
                    env[dest] = r
            if nxt is None:
                raise Unsupported('LLVM IR: block without end')
            prev, cur = cur, nxt

    def step(self, t, env):
        t.attrs()
        op = t.next()
        m = getattr(self, 'op_' + op, None)
        if m is not None:
            return m(t, env)
        if op in BIN:
            t.attrs()
            ty, a = self.typed(t, env)
            t.need(',')
            b = self.value(ty, t, env)
            return BIN[op](ty, a, b)
        raise Unsupported('LLVM instruction ' + op)

    def op_alloca(self, t, env):
        ty = self.m.type(t)
        o = Obj('local')
        self.undef(o, 0, ty)
        return Ptr(o)

    def undef(self, o, off, ty):
        if ty.k == 'array':
            for i in range(ty.n):
                self.undef(o, off + i * self.m.size(ty.el), ty.el)
        elif ty.k == 'struct':
            for i, e in enumerate(ty.el):
                self.undef(o, off + self.m.offset(ty, i), e)
        else:
            o.cells[off] = (self.m.size(ty), UNDEF)

    def op_load(self, t, env):
        t.attrs()
        ty = self.m.type(t)
        t.need(',')
        pt, p = self.typed(t, env)
        return self.load(ty, p)

    def op_store(self, t, env):
        t.attrs()
        ty, v = self.typed(t, env)
        t.need(',')
        pt, p = self.typed(t, env)
        self.store(ty, v, p)

    def op_getelementptr(self, t, env):
        t.attrs()
        return self.gep(t, env)

    def op_icmp(self, t, env):
        t.attrs()
        pred = t.next()
        ty, a = self.typed(t, env)
        t.need(',')
        b = self.value(ty, t, env)
        if ty.k == 'ptr':
            if pred == 'eq':
                return a.same(b)
            if pred == 'ne':
                return not a.same(b)
            if a.o is b.o and isinstance(a.off, int):
                return CMP[pred[1:]](a.off, b.off)
            raise Unsupported('comparison of pointers')
        if ty.n == 1 and pred in ('eq', 'ne'):
            r = core.to_z3bool(a) == core.to_z3bool(b)
            r = core.mkbool(r)
            return r if pred == 'eq' else core.mkbool(core.z3.Not(core.to_z3bool(r)))
        if pred in ('eq', 'ne'):
            return CMP[pred](a, b)
        if pred[0] == 'u':
            a, b = unsigned(a, ty.n), unsigned(b, ty.n)
        return CMP[pred[1:]](a, b)

    def op_fcmp(self, t, env):
        t.attrs()
        pred = t.next()
        ty, a = self.typed(t, env)
        t.need(',')
        b = self.value(ty, t, env)
        nan = (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
        if pred in ('ord', 'uno'):
            return nan == (pred == 'uno')
        if nan:
            return pred[0] == 'u'
        return CMP[pred[1:]](a, b)

    def op_br(self, t, env):
        ty = self.m.type(t)
        if ty.k == 'label':
            return ('br', t.next())
        c = self.value(ty, t, env)
        t.need(',')
        self.m.type(t)
        a = t.next()
        t.need(',')
        self.m.type(t)
        b = t.next()
        if c is UNDEF:
            raise Unsupported('branch on an undefined value')
        return ('br', a if c else b)

    def op_switch(self, t, env):
        ty, v = self.typed(t, env)
        t.need(',')
        self.m.type(t)
        default = t.next()
        t.need('[')
        while not t.eat(']'):
            cty, c = self.typed(t, env)
            t.need(',')
            self.m.type(t)
            lab = t.next()
            if v == c:
                return ('br', lab)
        return ('br', default)

    def op_select(self, t, env):
        t.attrs()
        cty, c = self.typed(t, env)
        t.need(',')
        aty, a = self.typed(t, env)
        t.need(',')
        bty, b = self.typed(t, env)
        if isinstance(c, SBool):
            if aty.k == 'int' and aty.n > 1 and a is not UNDEF and b is not UNDEF:
                return SInt(core.z3.If(c.e, core.as_int(a), core.as_int(b)))
            c = bool(c)
        return a if c else b

    def op_ret(self, t, env):
        if t.peek() == 'void':
            return ('ret', None)
        ty, v = self.typed(t, env)
        return ('ret', v)

    def op_unreachable(self, t, env):
        raise CrashError('unreachable code is reached')

    def op_freeze(self, t, env):
        return self.typed(t, env)[1]

    def op_call(self, t, env):
        t.attrs()
        self.m.type(t)
        t.attrs()
        f = t.next()
        t.need('(')
        args = []
        while not t.eat(')'):
            ty = self.m.type(t)
            if ty.k == 'metadata':
                d = 0
                while not (t.peek() in (',', ')') and not d):
                    x = t.next()
                    d += (x == '(') - (x == ')')
                args.append(None)
            else:
                args.append(self.value(ty, t, env))
            t.eat(',')
        if f[0] == '@':
            name = f[1:]
        else:
            p = env[f]
            name = p.o.value if p.o is not None else None
            if not isinstance(name, str):
                raise CrashError('a call through a bad pointer')
        return self.call(name, args)

    def _cast(self, t, env):
        t.attrs()
        ty, v = self.typed(t, env)
        t.need('to')
        to = self.m.type(t)
        return ty, v, to

    def op_trunc(self, t, env):
        ty, v, to = self._cast(t, env)
        if v is UNDEF:
            return v
        if to.n == 1:
            return (v % 2) != 0
        return wrap(v, to.n)

    def op_sext(self, t, env):
        ty, v, to = self._cast(t, env)
        if ty.n == 1:
            return -bint(v)
        return v

    def op_zext(self, t, env):
        ty, v, to = self._cast(t, env)
        if v is UNDEF:
            return v
        if ty.n == 1:
            return bint(v)
        return unsigned(v, ty.n)

    def op_sitofp(self, t, env):
        ty, v, to = self._cast(t, env)
        return tofloat(bint(v) if ty.n == 1 else v)

    def op_uitofp(self, t, env):
        ty, v, to = self._cast(t, env)
        return tofloat(bint(v) if ty.n == 1 else unsigned(v, ty.n))

    def op_fptosi(self, t, env):
        ty, v, to = self._cast(t, env)
        if isinstance(v, SReal):
            return wrap(core.real_to_int(v), to.n)
        return wrap(int(v), to.n)

    def op_fpext(self, t, env):
        return self._cast(t, env)[1]

    def op_fptrunc(self, t, env):
        ty, v, to = self._cast(t, env)
        if isinstance(v, float) and to.k == 'float':
            return struct.unpack('f', struct.pack('f', v))[0]
        return v

    def op_bitcast(self, t, env):
        ty, v, to = self._cast(t, env)
        if ty.k != to.k:
            raise Unsupported('bitcast')
        return v

    def op_ptrtoint(self, t, env):
        ty, v, to = self._cast(t, env)
        if v.o is None:
            return v.off
        raise Unsupported('pointer as integer')

    def op_fneg(self, t, env):
        t.attrs()
        return -self.typed(t, env)[1]


class CrashError(Exception):
    """undefined behaviour of the C code"""


def bint(v):
    if isinstance(v, SBool):
        return SInt(core.as_int(v))
    return int(v)


def tofloat(v):
    if isinstance(v, (SInt, SBool)):
        return SReal(core.as_real(v))
    return float(v)


def _int(f):
    def op(ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty.n == 1:
            return f(bint(a), bint(b)) % 2 != 0
        return wrap(f(a, b), ty.n)
    return op


def _logic(f, g):
    def op(ty, a, b):
        if ty.n == 1:
            return g(a, b)
        return wrap(f(a, b), ty.n)
    return op


def _z(x):
    return core.to_z3bool(x)


def _fl(f):
    def op(ty, a, b):
        if isinstance(a, float) and isinstance(b, float):
            return f(a, b)
        if isinstance(a, float) and not _finite(a) or isinstance(b, float) and not _finite(b):
            raise Unsupported('infinite number in C code')
        return f(a, b)
    return op


def _finite(x):
    return x == x and x not in (float('inf'), float('-inf'))


def _fdiv(ty, a, b):
    zero = b == 0
    if zero if isinstance(zero, bool) else bool(zero):
        if isinstance(a, SReal):
            if a == 0:
                return float('nan')
            return float('inf') if a > 0 else float('-inf')
        return float('nan') if a == 0 or a != a else float('inf') if a > 0 else float('-inf')
    if isinstance(a, float) and isinstance(b, float):
        return a / b
    if isinstance(a, float) and not _finite(a) or isinstance(b, float) and not _finite(b):
        raise Unsupported('infinite number in C code')
    return a / b


def _sdiv(a, b):
    if b == 0:
        raise CrashError('division by zero')
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def _srem(a, b):
    return a - b * _sdiv(a, b)


def _u(f):
    def op(ty, a, b):
        return wrap(f(unsigned(a, ty.n), unsigned(b, ty.n)), ty.n)
    return op


def _udiv(a, b):
    if b == 0:
        raise CrashError('division by zero')
    return a // b


def _urem(a, b):
    if b == 0:
        raise CrashError('division by zero')
    return a % b


BIN = {
    'add': _int(lambda a, b: a + b), 'sub': _int(lambda a, b: a - b), 'mul': _int(lambda a, b: a * b),
    'and': _logic(lambda a, b: a & b, lambda a, b: core.mkbool(core.z3.And(_z(a), _z(b)))),
    'or': _logic(lambda a, b: a | b, lambda a, b: core.mkbool(core.z3.Or(_z(a), _z(b)))),
    'xor': _logic(lambda a, b: a ^ b, lambda a, b: core.mkbool(core.z3.Xor(_z(a), _z(b)))),
    'shl': _int(lambda a, b: a << b), 'ashr': _int(lambda a, b: a >> b),
    'lshr': lambda ty, a, b: wrap(unsigned(a, ty.n) >> b, ty.n),
    'sdiv': _int(_sdiv), 'srem': _int(_srem), 'udiv': _u(_udiv), 'urem': _u(_urem),
    'fadd': _fl(lambda a, b: a + b), 'fsub': _fl(lambda a, b: a - b), 'fmul': _fl(lambda a, b: a * b),
    'fdiv': _fdiv,
}
CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}
