"""Model of persistent.Persistent and of storing object graphs (ZODB).

A `Store` keeps, per persistent object, a snapshot of its state.  commit()
writes the state of every object reachable from the root that is new or whose
_p_changed flag is set -- and of no other one.  load() builds a new graph from
the snapshots only, as a new session would.
"""
from ..rt import SymDict, SymSet, DefaultDict, FrozenSymSet
from ..core import Sym, Unsupported


class Persistent:
    _p_changed = True
    _p_store = None
    _p_id = None
    _p_oid = None
    _p_jar = None
    _p_serial = b'\0' * 8
    _p_state = 0
    _p_estimated_size = 0

    def __setattr__(self, n, v):
        object.__setattr__(self, n, v)
        if not n.startswith('_p_') and not n.startswith('_v_'):
            object.__setattr__(self, '_p_changed', True)

    def __delattr__(self, n):
        object.__delattr__(self, n)
        if not n.startswith('_p_') and not n.startswith('_v_'):
            object.__setattr__(self, '_p_changed', True)

    def __getstate__(self):
        return {k: v for k, v in self.__dict__.items() if not k.startswith('_p_') and not k.startswith('_v_')}

    def __setstate__(self, st):
        d = self.__dict__
        for k in [k for k in d if not k.startswith('_p_')]:
            del d[k]
        if st is not None:
            d.update(dict(st.items()))

    def _p_activate(self):
        pass

    def _p_deactivate(self):
        pass

    def _p_invalidate(self):
        # forget uncommitted changes: back to the stored state
        if self._p_store is not None:
            self._p_store.restore(self)

    _p_sticky = False


class Ref:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


class Rec:
    """non-persistent instance inside a record"""
    __slots__ = ('cls', 'state')

    def __init__(self, cls, state):
        self.cls, self.state = cls, state


_ATOMS = (int, float, str, bytes, bool, type(None), complex)


def _walk(x, f, memo):
    """structural copy of the non-persistent part; f maps persistent objects / Refs"""
    if isinstance(x, (Sym,) + _ATOMS) or type(x).__name__ == 'SymBytes' or isinstance(x, type) or callable(x) and not hasattr(x, '__dict__'):
        return x
    if isinstance(x, (Persistent, Ref)):
        return f(x)
    if type(x).__name__ in ('family32', 'family64'):
        return x        # pickled by name
    i = id(x)
    if i in memo:
        return memo[i][0]
    if type(x) is tuple:
        r = tuple(_walk(y, f, memo) for y in x)
        memo[i] = (r, x)
        return r
    if type(x) is list:
        r = []
        memo[i] = (r, x)
        r.extend(_walk(y, f, memo) for y in x)
        return r
    if type(x) is dict:
        r = {}
        memo[i] = (r, x)
        for k, v in x.items():
            r[_walk(k, f, memo)] = _walk(v, f, memo)
        return r
    if isinstance(x, SymDict):
        r = type(x)(x.default_factory) if isinstance(x, DefaultDict) else type(x)()
        memo[i] = (r, x)
        src = [(_walk(k, f, memo), _walk(v, f, memo)) for k, v in x._items()]
        if x._l is None:
            r._d = dict(src)
        else:
            r._d, r._l = None, [list(e) for e in src]
        return r
    if isinstance(x, SymSet):
        r = type(x)()
        memo[i] = (r, x)
        r._m = _walk(x._m, f, memo)
        return r
    if type(x) in (set, frozenset):
        return type(x)(x)
    if isinstance(x, type(_walk)):
        return x
    if type(x).__name__ == 'module':
        raise Unsupported('module in persistent state')
    if type(x).__module__.startswith('symex') and not hasattr(x, '__dict__'):
        return x
    st = x.__getstate__() if '__getstate__' in type(x).__dict__ else dict(x.__dict__)
    r = type(x).__new__(type(x))
    memo[i] = (r, x)
    st = _walk(st, f, memo)
    if hasattr(type(x), '__setstate__'):
        r.__setstate__(st)
    else:
        r.__dict__.update(st)
    return r


def pickled(x):
    """pickle.loads(pickle.dumps(x)) of objects without persistent ones"""
    def f(p):
        raise Unsupported('persistent object in a pickle')
    return _walk(x, f, {})


class Store:
    def __init__(self):
        self.rec = {}
        self.n = 0
        self.objs = []

    def _oid(self, o):
        if o._p_store is not self:
            self.n += 1
            d = o.__dict__
            d['_p_id'] = self.n
            d['_p_store'] = self
            d['_p_changed'] = True
            self.objs.append(o)
        return o._p_id

    def commit(self, root):
        rid = self._oid(root)
        todo, seen = [root], set()
        while todo:
            o = todo.pop()
            oid = o._p_id
            if oid in seen:
                continue
            seen.add(oid)
            changed = o._p_changed

            def f(p):
                k = self._oid(p)
                if k not in seen:
                    todo.append(p)
                return Ref(k)
            if changed or oid not in self.rec:
                snap = _walk(o.__getstate__(), f, {})
                self.rec[oid] = (type(o), snap)
                o.__dict__['_p_changed'] = False
            else:
                # unchanged: not written; but objects below it may have changed
                _walk(o.__getstate__(), f, {})
        # ZODB writes every object that was modified, referenced or not
        for o in list(self.objs):
            oid = o._p_id
            if oid in self.rec and oid not in seen and o._p_changed:
                self.rec[oid] = (type(o), _walk(o.__getstate__(), lambda p: Ref(self._oid(p)), {}))
                o.__dict__['_p_changed'] = False
        return rid

    def abort(self):
        """changed objects go back to their stored state; the others stay as they are in memory"""
        for o in list(self.objs):
            if o._p_changed and o._p_id in self.rec:
                self.restore(o)

    def restore(self, o):
        r = self.rec.get(o._p_id)
        if r is None:
            return
        live = {x._p_id: x for x in self.objs}
        o.__setstate__(_walk(r[1], lambda ref: live[ref.oid], {}))
        o.__dict__['_p_changed'] = False

    def load(self, rid, n=None):
        new = {}
        store = Store()
        store.rec = dict(self.rec)
        store.n = self.n if n is None else n

        def get(ref):
            oid = ref.oid
            if oid in new:
                return new[oid]
            cls, snap = self.rec[oid]
            o = cls.__new__(cls)
            new[oid] = o
            o.__setstate__(_walk(snap, get, {}))
            d = o.__dict__
            d['_p_id'] = oid
            d['_p_store'] = store
            d['_p_changed'] = False
            store.objs.append(o)
            return o
        return get(Ref(rid)), store

    def merge(self, first, second):
        """commit `first`, then `second`, both loaded from this store: the
        merged records, or None for a ConflictError"""
        def changes(st):
            return {k: r for k, r in st.rec.items() if self.rec.get(k) is not r}
        one, two = changes(first), changes(second)
        if two and any('_p_read' in o.__dict__ and o._p_id in self.rec and o._p_id in one and o._p_id not in two
                       for o in second.objs):
            return None     # ReadConflictError
        rec = dict(self.rec)
        rec.update(one)
        try:
            for oid in sorted(two):
                cls, new = two[oid]
                if oid in one and oid in self.rec:
                    resolve = getattr(cls, '_resolve', None)
                    if resolve is None:
                        return None
                    new = resolve(self.rec[oid][1], one[oid][1], new)
                rec[oid] = (cls, new)
        except Conflict:
            return None
        self.rec = rec
        self.n = max(first.n, second.n)
        return True


class Conflict(Exception):
    pass
