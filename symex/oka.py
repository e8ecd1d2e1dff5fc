"""okascore.c, executed symbolically: the C source is compiled to LLVM IR by
clang and interpreted; the Python C API it calls is modelled here (objects,
reference counts, pending exceptions)."""
import os
import re
import subprocess
import types

from . import core, llvm, real, rt
from .core import SBool, SInt, SReal, Sym, Unsupported
from .llvm import NULL, CrashError, Obj, Ptr

HELD = 1000     # references others hold to an object that existed before
IMMORTAL = 0xFFFFFFFF
INJECT = ('PySequence_GetItem', 'PyObject_GetItem', 'PyObject_SetItem', 'PyFloat_FromDouble', 'PyObject_Size',
          'PyObject_Length', 'PySequence_Size', 'PySequence_Length', 'PySequence_ITEM')
FLAGS = {'int': 1 << 24, 'list': 1 << 25, 'tuple': 1 << 26, 'str': 1 << 28, 'dict': 1 << 29}
TYPES = {'PyTuple_Type': 'tuple', 'PyList_Type': 'list', 'PyLong_Type': 'int', 'PyFloat_Type': 'float',
         'PyBool_Type': 'bool', 'PyDict_Type': 'dict', 'PyUnicode_Type': 'str', '_PyNone_Type': 'NoneType'}

_mod = None


def ir_path():
    return os.path.join(os.environ.get('VERIF_WORK', '/tmp'), 'okascore.ll')


def compile_ir(out):
    src = os.path.join(real.REPO, 'src/zope/index/text/okascore.c')
    if not os.path.exists(src):
        return 'no okascore.c'
    r = subprocess.run(['clang', '-O1', '-fwrapv', '-ffp-contract=off', '-DNDEBUG', '-fno-vectorize',
                        '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-strict-aliasing', '-w', '-S', '-emit-llvm',
                        '-I', real.include_dir(), src, '-o', out], capture_output=True, text=True)
    return r.stderr if r.returncode else ''


def module():
    global _mod
    if _mod is None:
        p = ir_path()
        if not os.path.exists(p):
            msg = compile_ir(p)
            if msg:
                raise Unsupported('okascore.c: ' + msg[:200])
        with open(p) as f:
            _mod = llvm.Module(f.read())
    return _mod


class Given:
    """external variables"""

    def __init__(self, c):
        self.c = c

    def __contains__(self, n):
        return n in TYPES or n.startswith('PyExc_') or n in ('_Py_NoneStruct', '_Py_TrueStruct', '_Py_FalseStruct')

    def __getitem__(self, n):
        c = self.c
        if n in TYPES:
            return lambda i: c.type(TYPES[n])
        if n == '_Py_NoneStruct':
            return lambda i: c.handle(None)
        if n == '_Py_TrueStruct':
            return lambda i: c.handle(True)
        if n == '_Py_FalseStruct':
            return lambda i: c.handle(False)

        def exc(i):
            import builtins
            o = Obj(n)
            o.cells[0] = (8, c.handle(getattr(builtins, n[6:])))
            return Ptr(o)
        return exc


def kind(v):
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if isinstance(v, (float, SReal)):
        return 'float'
    if isinstance(v, tuple):
        return 'tuple' if type(v) is tuple else type(v).__name__
    if type(v) is list:
        return 'list'
    if core.isstr(v):
        return 'str'
    if isinstance(v, (rt.SymDict, dict)):
        return 'dict'
    if v is None:
        return 'NoneType'
    return type(v).__name__


class C:
    """one loaded extension module"""

    def __init__(self):
        self.types, self.byid, self.keep = {}, {}, []
        self.objs = []
        self.err = None
        self.fail_at = None
        self.calls = 0
        self.i = llvm.Interp(module(), EXT, Given(self))
        self.i.c = self
        self.definition = None
        init = [f for f in self.i.m.functions if f.startswith('PyInit_')]
        if len(init) != 1:
            raise Unsupported('no init function')
        self.i.call(init[0], [])
        if self.definition is None:
            raise Unsupported('module definition')

    def methods(self):
        m = self.i.m
        ty = m.named('%struct.PyModuleDef')
        d = self.definition
        tab = self.i.load(llvm.PTR, Ptr(d.o, d.off + m.offset(ty, 4)))
        slots = self.i.load(llvm.PTR, Ptr(d.o, d.off + m.offset(ty, 5)))
        if slots.o is not None:
            off = slots.off
            while True:
                w = slots.o.cells[off][1]
                if w == 0:
                    break
                if w == 2:
                    raise Unsupported('module exec slot')
                off += 16
        out = {}
        ent = m.named('%struct.PyMethodDef')
        off = tab.off
        while True:
            name = tab.o.cells[off][1]
            if not isinstance(name, Ptr) or name.o is None:
                return out
            f = self.i.load(llvm.PTR, Ptr(tab.o, off + m.offset(ent, 1)))
            flags = self.i.load(llvm.Type('int', 32), Ptr(tab.o, off + m.offset(ent, 2)))
            out[self.string(name)] = (f.o.value, flags)
            off += m.size(ent)

    def string(self, p):
        s = ''
        off = p.off
        while True:
            c = p.o.cells[off][1]
            if c == 0:
                return s
            s += chr(c & 255)
            off += 1

    # --------------------------------------------------------- objects
    def type(self, name):
        if name not in self.types:
            o = Obj('type ' + name)
            o.cells[0] = (8, IMMORTAL)
            o.cells[168] = (8, FLAGS.get('int' if name == 'bool' else name, 0))
            o.value = name
            self.types[name] = Ptr(o)
        return self.types[name]

    def handle(self, v, fresh=False, held=HELD):
        """pointer to the object of a Python value"""
        if not fresh:
            o = self.byid.get(id(v))
            if o is not None:
                return Ptr(o)
        k = kind(v)
        o = Obj('object ' + k)
        o.py, o.value = True, v
        immortal = v is None or isinstance(v, bool) or (type(v) is int and -5 <= v <= 256) or isinstance(v, type)
        o.base = IMMORTAL if immortal else 0 if fresh else held
        o.cells[0] = (8, o.base)
        o.cells[8] = (8, self.type(k))
        if not fresh or immortal:
            self.byid[id(v)] = o
        self.keep.append(v)
        self.objs.append(o)
        hold = 1 if fresh else HELD
        if k == 'tuple':
            o.cells[16] = (8, len(v))
            for i, x in enumerate(v):
                o.cells[24 + 8 * i] = (8, self.handle(x, held=hold))
        elif k == 'list':
            o.cells[16] = (8, len(v))
            items = Obj('items')
            o.cells[24] = (8, Ptr(items))
            for i, x in enumerate(v):
                items.cells[8 * i] = (8, self.handle(x))
        elif k == 'float':
            o.cells[16] = (8, v)
        return Ptr(o)

    def newref(self, p):
        o = p.o
        if o.base != IMMORTAL:
            o.cells[0] = (8, o.cells[0][1] + 1)
        return p

    def decref(self, p):
        o = p.o
        if o.freed:
            raise CrashError('a reference to a freed object is released')
        if o.base == IMMORTAL:
            return
        n = o.cells[0][1] - 1
        o.cells[0] = (8, n)
        if n == 0:
            self.dealloc(p)

    def dealloc(self, p):
        o = p.o
        o.freed = True
        if kind(o.value) == 'tuple':
            for off, (w, x) in list(o.cells.items()):
                if off >= 24 and isinstance(x, Ptr):
                    x.o.base -= 1 if x.o.base != IMMORTAL else 0
                    self.decref(x)

    def get(self, p):
        """the Python value of an object passed to the C API"""
        if not isinstance(p, Ptr) or p.o is None:
            raise CrashError('NULL is passed to the C API')
        if p.o.freed:
            raise CrashError('a freed object is used')
        if not p.o.py:
            raise CrashError('what is no object is passed to the C API')
        return p.o.value

    def imbalance(self):
        out = []
        for o in self.objs:
            if o.base == IMMORTAL:
                continue
            n = o.cells[0][1] - o.base
            if o.freed and o.base:
                out.append('an object others use is freed')
            elif n > 0 and not o.freed:
                out.append('a reference is leaked')
            elif n < 0:
                out.append('a reference too much is released')
        return out

    # ----------------------------------------------------------- calls
    def inject(self, name):
        if name not in INJECT:
            return False
        self.calls += 1
        if self.fail_at is not None and self.calls == self.fail_at:
            self.err = MemoryError('injected')
            return True
        return False

    def call(self, fn, flags, args):
        self.err = None
        self.calls = 0
        a = tuple(args)
        if flags == 1:
            t = self.handle(a)
            argv = [NULL, t]
        elif flags == 128:
            o = Obj('arguments')
            for k, x in enumerate(a):
                o.cells[8 * k] = (8, self.handle(x))
            argv = [NULL, Ptr(o), len(a)]
        else:
            raise Unsupported('method flags %d' % flags)
        r = self.i.call(fn, argv)
        err, self.err = self.err, None
        if r.o is None:
            if err is None:
                raise SystemError('%s returned NULL without setting an exception' % fn)
            raise err
        v = self.get(r)
        self.decref(r)
        if err is not None:
            raise SystemError('%s returned a result with an exception set' % fn)
        return v


def module_for(world):
    m = types.ModuleType('zope.index.text.okascore')
    c = C()
    m._c = c
    for name, (fn, flags) in c.methods().items():
        def f(*args, _fn=fn, _fl=flags):
            core.CUR.funcs.add('okascore.c:' + _fn)
            return c.call(_fn, _fl, args)
        f.__name__ = name
        setattr(m, name, f)
    return m


class Score:
    """okascore.score as the harnesses see it"""

    def __init__(self, m):
        self.m = m

    def call(self, *args, fail=None):
        """(result or None, exception or None, what is wrong with the references)"""
        c = self.m._c
        c.fail_at = fail
        for o in c.objs:
            o.base = o.cells[0][1] if o.base != IMMORTAL else o.base
        try:
            r, x = self.m.score(*args), None
        except core.EngineAbort:
            raise
        except CrashError as e:
            return None, None, str(e)
        except Exception as e:
            r, x = None, e
        c.fail_at = None
        return r, x, (c.imbalance() or [''])[0]

    def calls(self):
        return self.m._c.calls


# ---------------------------------------------------------------- C API

EXT = {}


def api(*names):
    def deco(f):
        for n in names:
            def g(i, a, _n=n):
                c = i.c
                if c.inject(_n):
                    return FAILED[f.__name__.partition('_')[0]]
                return f(c, *a)
            EXT[n] = g
        return f
    return deco


FAILED = {'obj': NULL, 'int': -1, 'float': -1.0, 'void': None}


def guarded(c, bad, f):
    try:
        return f()
    except Exception as e:
        c.err = e
        return bad


def is_btree(o):
    return type(o).__module__.endswith('models.btrees')


def result(c, container, v):
    """new reference to an object got out of a container"""
    if is_btree(container) and isinstance(v, (int, float, SInt, SReal)):
        return c.newref(c.handle(v, fresh=True))
    if isinstance(container, (list, tuple)) or container is None:
        return c.newref(c.handle(v))
    return c.newref(c.handle(v))


@api('PyObject_Size', 'PyObject_Length', 'PySequence_Size', 'PySequence_Length', 'PyMapping_Size', 'PyList_Size',
     'PyTuple_Size', 'PyDict_Size')
def int_size(c, o):
    v = c.get(o)
    return guarded(c, -1, lambda: len(v) if not isinstance(v, (Sym,)) or core.isstr(v) else _notype('len'))


def _notype(what):
    raise TypeError('object has no ' + what)


@api('PySequence_GetItem')
def obj_seqitem(c, o, n):
    v = c.get(o)

    def f():
        if kind(v) in ('int', 'float', 'bool', 'NoneType', 'dict'):
            raise TypeError('object does not support indexing')
        return result(c, v, rt.getitem(v, n))
    return guarded(c, NULL, f)


EXT['PySequence_ITEM'] = EXT['PySequence_GetItem']


@api('PyList_GetItem', 'PyTuple_GetItem')
def obj_borrowed(c, o, n):
    v = c.get(o)

    def f():
        if not isinstance(v, (list, tuple)):
            raise SystemError('bad argument to internal function')
        if not 0 <= n < len(v):
            raise IndexError('index out of range')
        return c.handle(v[n])
    return guarded(c, NULL, f)


@api('PyObject_GetItem')
def obj_getitem(c, o, k):
    v, key = c.get(o), c.get(k)

    def f():
        if kind(v) in ('int', 'float', 'bool', 'NoneType'):
            raise TypeError('object is not subscriptable')
        return result(c, v, rt.getitem(v, key))
    return guarded(c, NULL, f)


@api('PyDict_GetItemWithError')
def obj_dictget(c, o, k):
    v, key = c.get(o), c.get(k)

    def f():
        if not isinstance(v, (rt.SymDict, dict)):
            raise SystemError('bad argument to internal function')
        return c.handle(v[key]) if key in v else NULL
    return guarded(c, NULL, f)


@api('PyObject_SetItem')
def int_setitem(c, o, k, x):
    v, key, val = c.get(o), c.get(k), c.get(x)

    def f():
        if kind(v) in ('int', 'float', 'bool', 'NoneType', 'tuple', 'str'):
            raise TypeError('object does not support item assignment')
        v[key] = val
        if not is_btree(v) and isinstance(v, (list, rt.SymDict, dict)):
            # the container keeps references
            for p in (k, x):
                if p.o.base != IMMORTAL:
                    p.o.base += 1
                    c.newref(p)
        return 0
    return guarded(c, -1, f)


EXT['PyDict_SetItem'] = EXT['PyObject_SetItem']


@api('PyFloat_FromDouble')
def obj_float(c, x):
    return c.newref(c.handle(x, fresh=True))


@api('PyLong_FromLong', 'PyLong_FromLongLong', 'PyLong_FromSsize_t')
def obj_long(c, x):
    return c.newref(c.handle(x, fresh=True))


def to_double(c, p):
    v = c.get(p)
    if isinstance(v, (SReal, float)):
        return v
    if isinstance(v, (bool, SBool, int, SInt)):
        if isinstance(v, int) and abs(v) >= 2 ** 1024:
            raise OverflowError('int too large to convert to float')
        return llvm.tofloat(v)
    if hasattr(type(v), '__float__') and not core.isstr(v):
        return float(v)
    raise TypeError('must be real number')


@api('PyFloat_AsDouble', 'PyLong_AsDouble')
def float_as(c, o):
    return guarded(c, -1.0, lambda: to_double(c, o))


def to_int(c, p, bits):
    v = c.get(p)
    if isinstance(v, SBool):
        v = SInt(core.as_int(v))
    if not isinstance(v, (int, SInt)):
        if hasattr(type(v), '__index__') and not isinstance(v, Sym):
            v = v.__index__()
        else:
            raise TypeError('an integer is required')
    if v < -2 ** (bits - 1) or v >= 2 ** (bits - 1):
        raise OverflowError('int too large to convert to C')
    return v


@api('PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_AsSsize_t')
def int_as(c, o):
    return guarded(c, -1, lambda: to_int(c, o, 64))


@api('PyLong_AsInt', '_PyLong_AsInt')
def int_asint(c, o):
    return guarded(c, -1, lambda: to_int(c, o, 32))


@api('PyNumber_Float')
def obj_numfloat(c, o):
    return guarded(c, NULL, lambda: c.newref(c.handle(to_double(c, o), fresh=True)))


@api('PySequence_List')
def obj_list(c, o):
    v = c.get(o)
    return guarded(c, NULL, lambda: c.newref(c.handle(list(v), fresh=True)))


@api('PySequence_Tuple')
def obj_tuple(c, o):
    v = c.get(o)
    return guarded(c, NULL, lambda: c.newref(o) if type(v) is tuple else c.newref(c.handle(tuple(v), fresh=True)))


@api('PySequence_Fast')
def obj_fast(c, o, msg):
    v = c.get(o)
    if type(v) in (list, tuple):
        return c.newref(o)
    try:
        it = list(v)
    except TypeError:
        c.err = TypeError(c.string(msg))
        return NULL
    except Exception as e:
        c.err = e
        return NULL
    return c.newref(c.handle(it, fresh=True))


@api('PyObject_GetIter')
def obj_iter(c, o):
    v = c.get(o)
    return guarded(c, NULL, lambda: c.newref(c.handle(iter(v), fresh=True)))


@api('PyIter_Next')
def obj_next(c, o):
    v = c.get(o)

    def f():
        try:
            x = next(v)
        except StopIteration:
            return NULL
        return c.newref(c.handle(x))
    return guarded(c, NULL, f)


@api('PyErr_SetString')
def void_seterr(c, t, s):
    c.err = c.get(t)(c.string(s))


@api('PyErr_SetNone')
def void_seterrnone(c, t):
    c.err = c.get(t)()


@api('PyErr_SetObject')
def void_seterrobj(c, t, o):
    c.err = c.get(t)(c.get(o))


def _format(i, a):
    c = i.c
    c.err = c.get(a[0])(c.string(a[1]))
    return NULL


EXT['PyErr_Format'] = _format


@api('PyErr_NoMemory')
def obj_nomem(c):
    c.err = MemoryError()
    return NULL


@api('PyErr_BadInternalCall')
def void_badcall(c, *a):
    c.err = SystemError('bad argument to internal function')


@api('PyErr_Occurred')
def obj_occurred(c):
    return NULL if c.err is None else c.handle(type(c.err))


@api('PyErr_Clear')
def void_clear(c):
    c.err = None


@api('PyErr_ExceptionMatches')
def int_matches(c, t):
    return int(c.err is not None and isinstance(c.err, c.get(t)))


@api('_Py_Dealloc')
def void_dealloc(c, p):
    c.dealloc(p)


@api('Py_DecRef')
def void_decref(c, p):
    if p.o is not None:
        c.decref(p)


@api('_Py_DecRef')
def void__decref(c, p):
    c.decref(p)


@api('Py_IncRef', '_Py_IncRef')
def void_incref(c, p):
    if p.o is not None:
        c.newref(p)


@api('__assert_fail')
def void_assert(c, *a):
    raise CrashError('assertion: ' + c.string(a[0]))


@api('PyModuleDef_Init')
def obj_moddef(c, p):
    c.definition = p
    return p


@api('PyModule_Create2')
def obj_modcreate(c, p, v):
    c.definition = p
    return p


@api('PyType_IsSubtype')
def int_subtype(c, a, b):
    return int(a.same(b) or (a.o.value, b.o.value) == ('bool', 'int'))


@api('PyArg_ParseTuple', '_PyArg_ParseTuple_SizeT')
def int_parse(c, args, fmt, *outs):
    a = c.get(args)
    items = [args.o.cells[24 + 8 * k][1] for k in range(len(a))]
    return _parse(c, items, c.string(fmt), outs)


@api('_PyArg_ParseStack', '_PyArg_ParseStack_SizeT')
def int_parsestack(c, argv, n, fmt, *outs):
    items = [argv.o.cells[argv.off + 8 * k][1] for k in range(n)]
    return _parse(c, items, c.string(fmt), outs)


@api('PyArg_UnpackTuple')
def int_unpack(c, args, name, lo, hi, *outs):
    a = c.get(args)
    if not lo <= len(a) <= hi:
        c.err = TypeError('wrong number of arguments')
        return 0
    for k in range(len(a)):
        c.i.store(llvm.PTR, args.o.cells[24 + 8 * k][1], outs[k])
    return 1


def _parse(c, items, fmt, outs):
    fmt = re.split('[:;]', fmt)[0]
    outs = list(outs)
    units = re.findall(r'O!|[A-Za-z]|\||\(|\)|\$', fmt)
    lo = len([u for u in units[:units.index('|')] if u != '|']) if '|' in units else len(units)
    units = [u for u in units if u != '|']
    if not lo <= len(items) <= len(units):
        c.err = TypeError('wrong number of arguments')
        return 0
    INTS = {'i': 32, 'l': 64, 'L': 64, 'n': 64, 'h': 16}
    for k, u in enumerate(units):
        if u == 'O!':
            t = outs.pop(0)
        out = outs.pop(0)
        if k >= len(items):
            continue
        p = items[k]
        try:
            if u == 'O':
                c.i.store(llvm.PTR, p, out)
            elif u == 'O!':
                ty = p.o.cells[8][1]
                if not int_subtype(c, ty, t):
                    raise TypeError('argument has a wrong type')
                c.i.store(llvm.PTR, p, out)
            elif u == 'd':
                c.i.store(llvm.DOUBLE, to_double(c, p), out)
            elif u == 'f':
                c.i.store(llvm.FLOAT, to_double(c, p), out)
            elif u in INTS:
                if isinstance(c.get(p), (float, SReal)):
                    raise TypeError('an integer is required')
                c.i.store(llvm.Type('int', INTS[u]), to_int(c, p, INTS[u]), out)
            elif u == 'p':
                c.i.store(llvm.Type('int', 32), int(bool(c.get(p))), out)
            else:
                raise Unsupported('argument format ' + u)
        except Exception as e:
            if isinstance(e, CrashError):
                raise
            c.err = e
            return 0
    return 1


for _n in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.assume', 'llvm.dbg.value', 'llvm.dbg.declare',
           'llvm.experimental.noalias.scope.decl', 'llvm.donothing'):
    EXT[_n] = lambda i, a: None
EXT['llvm.fmuladd.f64'] = EXT['llvm.fma.f64'] = lambda i, a: a[0] * a[1] + a[2]
EXT['llvm.fabs.f64'] = EXT['fabs'] = lambda i, a: abs(a[0])
EXT['llvm.expect.i64'] = EXT['llvm.expect.i32'] = EXT['llvm.expect.i1'] = lambda i, a: a[0]
EXT['llvm.smax.i64'] = EXT['llvm.smax.i32'] = lambda i, a: a[0] if a[0] >= a[1] else a[1]
EXT['llvm.smin.i64'] = EXT['llvm.smin.i32'] = lambda i, a: a[0] if a[0] <= a[1] else a[1]
