"""Topic index."""


class Doc:
    """What a filter expression sees: each attribute may be missing."""

    def __init__(self, **k):
        for n in k:
            if k[n] is not None:
                setattr(self, n, k[n])

    def boom(self):
        raise KeyboardInterrupt('stop')


NAMES = ('f', 'g', 'h')
EXPR = {'f': 'context.f', 'g': 'context.g > 3', 'h': 'not context.f'}


def make_doc(e, i):
    """(document, {filter name: truth})"""
    k = e.pick('kind%d' % i, 3)
    n = e.int('g%d' % i)
    if k == 0:
        # evaluating context.f raises AttributeError
        return Doc(g=n), {'f': False, 'h': False, 'g': n > 3}
    if k == 1:
        # an int is as good as a truth value
        v = e.int('fi%d' % i)
        return Doc(f=v, g=n), {'f': v != 0, 'h': v == 0, 'g': n > 3}
    b = e.bool('fb%d' % i)
    return Doc(f=b, g='x'), {'f': b, 'h': e.not_(b), 'g': False}


def fset(e, name, bits=32):
    P = e.mod('zope.index.topic.filter').PythonFilteredSet
    if bits == 32:
        return P(name, EXPR[name])
    return P(name, EXPR[name], family=e.family(bits))


def make(e, bits=32):
    T = e.mod('zope.index.topic.index').TopicIndex
    if bits == 32:
        return T()
    return T(family=e.family(bits))


def drop(l, d):
    return [x for x in l if not (x == d)]


def step(e, idx, model, i, ops, names, bits=32, ids=None):
    op = e.choice('op%d' % i, ops)
    e.cover(op)
    if op == 'add':
        name = e.choice('name%d' % i, names)
        idx.addFilter(fset(e, name, bits))
        model[name] = []
    elif op == 'del':
        name = e.choice('name%d' % i, names)
        if name in model:
            idx.delFilter(name)
            del model[name]
        else:
            e.must_raise(KeyError, 'removing an unknown filter raises KeyError', idx.delFilter, name)
    elif op == 'clearFilters':
        idx.clearFilters()
        for name in model:
            model[name] = []
    elif op == 'clear':
        idx.clear()
        model.clear()
    else:
        d = e.int('d%d' % i, -2 ** (bits - 1), 2 ** (bits - 1) - 1) if ids is None else e.choice('d%d' % i, ids)
        if op == 'index':
            doc, truth = make_doc(e, i)
            idx.index_doc(d, doc)
            for name in model:
                if any(x == d for x in model[name]):
                    e.cover('reindex')
                model[name] = drop(model[name], d)
                if truth[name]:
                    model[name] = model[name] + [d]
        else:
            idx.unindex_doc(d)
            for name in model:
                model[name] = drop(model[name], d)


def wanted(model, q, op):
    hit = [model[n] for n in model if n in q]
    if not hit:
        return []
    if op == 'and':
        return [d for d in hit[0] if all(d in h for h in hit[1:])]
    out = []
    for h in hit:
        for d in h:
            if not (d in out):
                out.append(d)
    return out


def history(e, n, ops, names=('f', 'g'), start=('f', 'g'), bits=32, forms=('search', 'apply', 'dict'),
            queries=None):
    idx = make(e, bits)
    model = {}
    for name in start:
        idx.addFilter(fset(e, name, bits))
        model[name] = []
    for i in range(n):
        step(e, idx, model, i, ops, names, bits)
    ask(e, idx, model, names, forms, queries)


QUERIES = {'2': (('f',), ('g',), ('f', 'g'), ('g', 'f'), ('f', 'z'), ('z',), ()),
           '3': (('f', 'g', 'h'), ('h', 'f'), ('g', 'h'), ('h',), ('f', 'f'))}


def ask(e, idx, model, names, forms, queries=None):
    q = e.choice('q', queries or (QUERIES['3'] if len(names) == 3 else QUERIES['2']))
    op = e.choice('qop', ('and', 'or'))
    form = e.choice('form', forms)
    if form == 'search':
        r = idx.search(list(q), op)
    elif form == 'apply':
        if op != 'and':
            e.stop()
        r = idx.apply(q[0] if len(q) == 1 else q)
    else:
        r = idx.apply({'query': q, 'operator': op})
    want = wanted(model, q, op)
    e.check_ids(r, want, 'search result')
    if len(want) > 1:
        e.cover('several')


def bad(e):
    idx = make(e)
    idx.addFilter(fset(e, 'f'))
    idx.index_doc(1, Doc(f=True))
    op = e.str('op', e.choice('n', (0, 1, 2, 3)), 'andorAN')
    e.assume(op != 'and')
    e.assume(op != 'or')
    e.must_raise(TypeError, 'unknown operator', idx.search, ['f'], op)
    e.must_raise(TypeError, 'unknown operator (apply)', idx.apply, {'query': ['f'], 'operator': op})
    x = e.int('x')
    e.must_raise(TypeError, 'a query that is no list of ids', idx.search, x)
    e.must_raise(TypeError, 'a query that is no list of ids (apply)', idx.apply, {'query': x})
    e.check_ids(idx.search('f'), [1], 'unchanged')


def severe(e, n):
    """expressions that raise anything, even what is no Exception"""
    idx = make(e)
    P = e.mod('zope.index.topic.filter').PythonFilteredSet
    ex = e.choice('ex', ('context.boom()', '1 // context.g', 'nonsense', 'context.', 'context.g or context.boom()'))
    idx.addFilter(P('f', ex))
    model = []
    for i in range(n):
        d = e.int('d%d' % i, -2 ** 31, 2 ** 31 - 1)
        g = e.int('g%d' % i)
        idx.index_doc(d, Doc(g=g))
        model = drop(model, d)
        if ex == '1 // context.g':
            ok = e.or_(g == 1, g < 0)
        elif ex == 'context.g or context.boom()':
            ok = g != 0
        else:
            ok = False
        if ok:
            model.append(d)
    e.check_ids(idx.search('f'), model, 'search result')


EXPRS = ('context.g > 3', 'context.g < 2', 'context.missing', 'context.g')


def truth(ex, g):
    return {'context.g > 3': g > 3, 'context.g < 2': g < 2, 'context.missing': False, 'context.g': g != 0}[ex]


def express(e, n, ops=('index', 'unindex', 'express', 'clearFilters', 'again'), exprs=EXPRS):
    """the expression of a filter is changed between"""
    idx = make(e)
    P = e.mod('zope.index.topic.filter').PythonFilteredSet
    ex = e.choice('expr', exprs)
    f = P('f', ex)
    idx.addFilter(f)
    model = []
    for i in range(n):
        op = e.choice('op%d' % i, ops) if i else 'index'
        e.cover(op)
        if op == 'express':
            ex = e.choice('expr%d' % i, exprs)
            f.setExpression(ex)
        elif op == 'clearFilters':
            idx.clearFilters()
            model = []
        elif op == 'again':
            # another filter in its place
            ex = e.choice('expr%d' % i, exprs)
            f = P('f', ex)
            idx.addFilter(f)
            model = []
        else:
            d = e.int('d%d' % i, -2 ** 31, 2 ** 31 - 1)
            g = e.int('g%d' % i)
            if op == 'index':
                idx.index_doc(d, Doc(g=g))
            else:
                idx.unindex_doc(d)
            model = drop(model, d)
            if op == 'index' and truth(ex, g):
                model = model + [d]
    e.check(f.getId() == 'f', 'getId')
    e.check(f.getExpression() == ex, 'getExpression')
    e.check_ids(idx.search('f'), model, 'search result')
    e.check_ids(f.getIds(), model, 'ids of the filter')
    if len(model) > 1:
        e.cover('several')
