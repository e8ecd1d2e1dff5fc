"""Field index: range queries, statistics, sorting."""


def docid(e, name, bits=32):
    return e.int(name, -2 ** (bits - 1), 2 ** (bits - 1) - 1)


def value(e, name, kind):
    if kind == 'int':
        return e.int(name)
    if kind == 'real':
        return e.real(name)
    if kind == 'str':
        return e.str(name, 1, 'abcdefghijklmnopqrstuvwxyz')
    if kind == 'str2':
        return e.str(name, e.choice(name + 'n', (0, 1, 2)), 'abc')
    if kind == 'tuple':
        return (e.int(name + 'x'), e.int(name + 'y'))
    if kind == 'none':
        # None is a value like any other (it sorts before everything in a BTree)
        if e.flag(name + 'null'):
            return None
        return e.int(name)
    raise AssertionError(kind)


def lt(a, b):
    if a is None or b is None:
        return a is None and b is not None
    return a < b


def same(a, b):
    if a is None or b is None:
        return a is b
    return a == b


def make(e, bits=32, **k):
    FieldIndex = e.mod('zope.index.field').FieldIndex
    if bits == 32:
        return FieldIndex()
    return FieldIndex(family=e.family(bits))


def history(e, idx, n, kind, bits=32, ops=('index', 'unindex', 'clear'), first='index'):
    """n operations; returns the expected {docid: value}"""
    model = {}
    for i in range(n):
        op = e.choice('op%d' % i, ops) if i else first
        if op == 'clear':
            idx.clear()
            model = {}
            e.cover('clear')
            continue
        d = docid(e, 'd%d' % i, bits)
        if op == 'index':
            v = value(e, 'v%d' % i, kind)
            if d in model:
                e.cover('reindex')
            idx.index_doc(d, v)
            model[d] = v
        elif op == 'unindex':
            if d in model:
                e.cover('unindex known')
                del model[d]
            else:
                e.cover('unindex unknown')
            idx.unindex_doc(d)
    return model


def apply_history(e, n, kind, bits=32, ops=('index', 'unindex', 'clear'), ends='both'):
    idx = make(e, bits)
    model = history(e, idx, n, kind, bits, ops)
    q = e.choice('ends', ('both', 'lo', 'hi', 'none')) if ends == 'all' else ends
    lo = value(e, 'lo', kind) if q in ('both', 'lo') else None
    hi = value(e, 'hi', kind) if q in ('both', 'hi') else None
    r = idx.apply((lo, hi))
    expected = []
    for d, v in model.items():
        if (lo is None or not lt(v, lo)) and (hi is None or not lt(hi, v)):
            expected.append(d)
    e.check_ids(r, expected, 'ids in the range')
    if len(expected) > 1:
        e.cover('several ids')
    if len(expected) == 0:
        e.cover('no ids')


def apply_errors(e):
    idx = make(e)
    idx.index_doc(1, 5)
    x, y = e.int('x'), e.int('y')
    k = e.pick('k', 7)
    q = (((x,)), (x, y, x), [x, y], (), 'ab', {x: y, 7: 8}, [x])[k]
    e.must_raise(TypeError, 'apply rejects anything but a pair', idx.apply, q)
    e.check_ids(idx.apply((5, 5)), [1], 'index unchanged by a rejected query')


def check_stats(e, idx, model, distinct=None):
    vals = []
    for v in model.values():
        if not any(same(v, w) for w in vals):
            vals.append(v)
    e.observe('counts', (idx.documentCount(), idx.wordCount()))
    e.check(idx.documentCount() == len(model), 'documentCount')
    e.check(idx.wordCount() == len(vals), 'wordCount')


def stats_history(e, n, kind, bits=32, ops=('index', 'unindex', 'clear'), every=True):
    idx = make(e, bits)
    model = {}
    for i in range(n):
        op = e.choice('op%d' % i, ops) if i else 'index'
        if op == 'clear':
            idx.clear()
            model = {}
            e.cover('clear')
        else:
            d = docid(e, 'd%d' % i, bits)
            if op == 'index':
                v = value(e, 'v%d' % i, kind)
                if d in model:
                    e.cover('reindex')
                idx.index_doc(d, v)
                model[d] = v
            else:
                if d in model:
                    e.cover('unindex known')
                    del model[d]
                else:
                    e.cover('unindex unknown')
                idx.unindex_doc(d)
        if every or i == n - 1:
            check_stats(e, idx, model)
    # nothing of the removed documents is left
    e.check_ids(idx.apply((None, None)), list(model), 'ids after the history')
    if kind != 'none':
        got = list(idx.sort(idx.family.IF.Set(list(model))))
        e.check(len(got) == len(model), 'sort after the history')


def sort_docs(e, n, kind, nq, extra=(), limits=(None,), revs=(False, True), distinct=True, override=None,
              qkind='Set', reindex=False, maxlimit=None, ordered=0):
    """n documents 0..n-1 (concrete ids), symbolic values; a query of nq ids
    out of which some are not indexed."""
    idx = make(e)
    model = {}
    # the first values in ascending or descending order
    up = e.flag('ascending') if ordered else True
    for i in range(n):
        v = value(e, 'v%d' % i, kind)
        if 0 < i < ordered:
            e.assume(model[i - 1] < v if up else model[i - 1] > v)
        idx.index_doc(i, v)
        model[i] = v
    if reindex:
        v = value(e, 'vr', kind)
        idx.index_doc(0, v)
        model[0] = v
    query = [i for i in range(nq)] + list(extra)
    check_sort(e, idx, model, query, limits, revs, override, qkind, maxlimit)


def sort_history(e, n, kind, nq, limits=(None, 1, 2), bits=32, qkind='Set', ops=('index', 'unindex')):
    idx = make(e, bits)
    model = history(e, idx, n, kind, bits, ops)
    query = []
    for i in range(nq):
        d = docid(e, 'q%d' % i, bits)
        if d in query:
            e.stop()
        query.append(d)
    check_sort(e, idx, model, query, limits, (False, True), None, qkind)


def sort_repeated(e, n, k, limits=(None, 1, 2), qkind='list', override=None):
    """a list of ids that may have an id several times"""
    idx = make(e)
    model = {}
    for i in range(n):
        v = value(e, 'v%d' % i, 'int')
        idx.index_doc(i, v)
        model[i] = v
    ids = [e.choice('q%d' % i, tuple(range(n)) + (77,)) for i in range(k)]
    query = []
    for d in ids:
        if d in query:
            e.cover('repeated')
        else:
            query.append(d)
    check_sort(e, idx, model, query, limits, (False, True), override, qkind, None, ids)


def check_sort(e, idx, model, query, limits, revs, override=None, qkind='Set', maxlimit=None, asked=None):
    reverse = e.choice('reverse', revs)
    limit = e.choice('limit', limits)
    if limit == 'sym':
        limit = e.int('limitn', 1, maxlimit)
    if override:
        setattr(idx, override, True)
    if asked is not None:
        docids = list(asked) if qkind == 'list' else tuple(asked)
    elif qkind == 'list':
        docids = list(query)
    elif qkind == 'dups':
        docids = list(query) + list(reversed(query))
    elif qkind == 'btree':
        docids = idx.family.IF.BTree([(d, 1.0) for d in query])
    elif qkind == 'tuple':
        docids = tuple(query)
    elif qkind == 'treeset':
        docids = idx.family.IF.TreeSet(query)
    elif qkind == 'gen':
        docids = iter(query)
    else:
        docids = idx.family.IF.Set(query)
    got = list(idx.sort(docids, reverse, limit))
    want = [d for d in query if d in model]
    k = len(want)
    if limit is not None and limit < k:
        k = limit
        e.cover('limited')
    if len(want) < len(query):
        e.cover('unindexed id requested')
    e.observe('n', len(got))
    e.check(len(got) == k, 'number of sorted ids')
    seen = []
    for d in got:
        e.check(d in want, 'only requested indexed ids')
        e.check(not (d in seen), 'each id once')
        seen.append(d)
    for a, b in zip(got, got[1:]):
        va, vb = model[a], model[b]
        if reverse:
            e.check(not lt(va, vb), 'non-increasing order')
        else:
            e.check(not lt(vb, va), 'non-decreasing order')
    if got and len(got) < len(want):
        last = model[got[-1]]
        for d in want:
            if not (d in seen):
                if reverse:
                    e.check(not lt(last, model[d]), 'the largest values come first')
                else:
                    e.check(not lt(model[d], last), 'the smallest values come first')
    if len(got) > 1:
        e.cover('several sorted')


def sort_errors(e):
    idx = make(e)
    n = e.pick('n', 2)
    for i in range(n):
        idx.index_doc(i, e.int('v%d' % i))
    limit = e.int('limit', None, 0)
    reverse = e.flag('reverse')
    e.must_raise(ValueError, 'limit below 1 raises ValueError',
                 lambda: list(idx.sort(idx.family.IF.Set([0, 1]), reverse, limit)))
