"""Results belong to the caller: later calls do not change them, and changing
them does not change the index.  The same for what was passed to index_doc."""
from props import h_field, h_keyword, h_pure, h_text, h_topic


def spoil(e, how, r):
    """change a result"""
    if how == 'clear':
        r.clear()
    elif how == 'add':
        if hasattr(r, 'items') and hasattr(r, 'keys'):
            r[77] = 5
        elif isinstance(r, list):
            r.append(77)
        else:
            r.insert(77)
    elif isinstance(r, list):
        del r[:1]
    elif len(r):
        k = list(r)[0]
        if hasattr(r, 'items') and hasattr(r, 'keys'):
            del r[k]
        else:
            r.remove(k)


def place(e, name, bits, preload=0, base=1000):
    """any id, or in a bulk of documents one of a few"""
    if preload > 5:
        return e.choice(name, (base, base + preload // 2, base + preload - 1, 9 * base))
    return e.int(name, -2 ** (bits - 1), 2 ** (bits - 1) - 1)


def run(e, idx, queries, changes, answers):
    name = e.choice('query', sorted(queries))
    r = queries[name](idx)
    was = h_pure.plain(e, r)
    if was[1]:
        e.cover('found')
    change = e.choice('change', sorted(changes) + ['spoil', 'again'])
    e.cover(change)
    if change == 'spoil':
        before = [(label, h_pure.plain(e, g())) for label, g in answers(idx)]
        spoil(e, e.choice('how', ('clear', 'add', 'remove')), r)
        after = [(label, h_pure.plain(e, g())) for label, g in answers(idx)]
        for (label, x), (l2, y) in zip(before, after):
            h_pure.same(e, x, y, label + ' after changing a result')
        h_pure.same(e, was, h_pure.plain(e, queries[name](idx)), 'the query after changing its result')
    elif change == 'again':
        # a second result of the same query is another object
        spoil(e, 'clear', queries[name](idx))
        h_pure.same(e, was, h_pure.plain(e, r), 'a result after changing another one')
    else:
        changes[change](idx)
        h_pure.same(e, was, h_pure.plain(e, r), 'a result after ' + change)


def field(e, n, kind='int', bits=32, preload=0):
    idx = h_field.make(e, bits)
    for i in range(preload):
        idx.index_doc(1000 + i, i % 9 * 10)
    vals, ds = [], []
    for i in range(n):
        d = place(e, 'd%d' % i, bits, preload)
        v = e.int('v%d' % i, 9, 11) if preload else h_field.value(e, 'v%d' % i, kind)
        idx.index_doc(d, v)
        vals.append(v)
        ds.append(d)
    v0, d0 = vals[0], ds[0]
    new = place(e, 'new', bits, preload)
    queries = {'value': lambda x: x.apply((v0, v0)), 'all': lambda x: x.apply((None, None)),
               'sort': lambda x: list(x.sort(ds + list(range(1000, 1000 + preload))))}

    def answers(x):
        return [('documentCount', x.documentCount), ('wordCount', x.wordCount),
                ('all documents', lambda: x.apply((None, None))), ('value', lambda: x.apply((v0, v0)))]
    run(e, idx, queries, {'index': lambda x: x.index_doc(new, v0), 'unindex': lambda x: x.unindex_doc(d0),
                          'clear': lambda x: x.clear()}, answers)


def keyword(e, n, threshold=None, norm='none', bits=32, sizes=(1, 2), preload=0):
    idx = h_keyword.make(e, norm, bits)
    if threshold is not None:
        idx.tree_threshold = threshold
    for i in range(preload):
        idx.index_doc(1000 + i, ['a', 'b'][:1 + i % 2])
    ds = []
    for i in range(n):
        d = place(e, 'd%d' % i, bits, preload)
        ws = ['a', 'b'][:e.choice('n%d' % i, sizes)]
        arg = list(ws)
        if e.flag('set%d' % i) and i == 0:
            arg = idx.family.OO.Set(ws)
            e.cover('set')
        idx.index_doc(d, arg)
        arg.clear()     # the argument is the caller's
        ds.append((d, ws))
    cur = []
    for d, ws in [(1000 + i, ['a', 'b'][:1 + i % 2]) for i in range(preload)] + ds:
        cur = [(x, y) for x, y in cur if not (x == d)] + [(d, ws)]
    e.check_ids(idx.search(['b']), [d for d, ws in cur if 'b' in ws], 'documents with a keyword')
    new = place(e, 'new', bits, preload)
    d0 = ds[0][0]
    queries = {'word': lambda x: x.search('a'), 'words': lambda x: x.search(['a', 'b']), 'twice': lambda x: x.search(['b', 'b']),
               'or': lambda x: x.search(['b'], 'or'), 'none': lambda x: x.search(['x']), 'dict': lambda x: x.apply(
                   {'query': ['b'], 'operator': 'and'}), 'empty': lambda x: x.search([])}

    def answers(x):
        return [('documentCount', x.documentCount), ('wordCount', x.wordCount), ('a', lambda: x.search('a')),
                ('b', lambda: x.search('b')), ('any', lambda: x.search(['a', 'b'], 'or')), ('x', lambda: x.search('x'))]

    def up(x):
        x.tree_threshold = 10
        x.optimize()

    def down(x):
        x.tree_threshold = 1
        x.optimize()
    run(e, idx, queries, {'index': lambda x: x.index_doc(new, ['a', 'b']), 'unindex': lambda x: x.unindex_doc(d0),
                          'reindex': lambda x: x.index_doc(d0, ['c']), 'clear': lambda x: x.clear(), 'to sets': up,
                          'to trees': down}, answers)


def topic(e, n, bits=32, preload=0):
    idx = h_topic.make(e, bits)
    P = e.mod('zope.index.topic.filter').PythonFilteredSet
    for name, x in (('a', 'True'), ('b', 'context.c')):
        idx.addFilter(P(name, x) if bits == 32 else P(name, x, family=e.family(bits)))
    for i in range(preload):
        idx.index_doc(1000 + i, h_topic.Doc(c=i % 3))
    ds = []
    for i in range(n):
        d = place(e, 'd%d' % i, bits, preload)
        idx.index_doc(d, h_topic.Doc(c=e.flag('c%d' % i)))
        ds.append(d)
    new = place(e, 'new', bits, preload)
    queries = {'one': lambda x: x.search('b'), 'both': lambda x: x.search(['a', 'b']), 'or': lambda x: x.search(['b'], 'or'),
               'unknown': lambda x: x.search('zz'), 'dict': lambda x: x.apply({'query': ('a',)})}

    def answers(x):
        return [('a', lambda: x.search('a')), ('b', lambda: x.search('b')), ('any', lambda: x.search(['a', 'b'], 'or'))]
    run(e, idx, queries, {'index': lambda x: x.index_doc(new, h_topic.Doc(c=True)), 'unindex': lambda x: x.unindex_doc(ds[0]),
                          'clear': lambda x: x.clear(), 'clearFilters': lambda x: x.clearFilters(),
                          'other': lambda x: x.index_doc(ds[0], h_topic.Doc(c=False))}, answers)


def text(e, kind, n, cutoff=None, bits=32, preload=0):
    idx = h_text.make(e, kind, bits)
    if cutoff is not None:
        idx.DICT_CUTOFF = cutoff
    for i in range(preload):
        idx.index_doc(1000 + i, [1])
    ds = []
    for i in range(n):
        d = place(e, 'd%d' % i, bits, preload)
        ws = [1, 2, 2][:e.choice('n%d' % i, (1, 3))]
        arg = list(ws)
        idx.index_doc(d, arg)
        del arg[:]
        ds.append(d)
    new = place(e, 'new', bits, preload)
    d0 = ds[0]
    queries = {'word': lambda x: x.search([1]), 'words': lambda x: x.search([1, 2]), 'phrase': lambda x: x.search_phrase(
        [1, 2]), 'glob': lambda x: x.search_glob([1, 2]), 'one': lambda x: x.search_phrase([2]),
        'unknown': lambda x: x.search([0]), 'get': lambda x: x.get_words(d0)}

    def answers(x):
        return [('documentCount', x.documentCount), ('wordCount', x.wordCount), ('1', lambda: x.search([1])),
                ('2', lambda: x.search([2])), ('phrase', lambda: x.search_phrase([1, 2])),
                ('words', lambda: x.get_words(d0))]
    run(e, idx, queries, {'index': lambda x: x.index_doc(new, [1, 2]), 'unindex': lambda x: x.unindex_doc(d0),
                          'reindex': lambda x: x.index_doc(d0, [3]), 'clear': lambda x: x.clear()}, answers)


def whole(e, kind, n, texts=('aa', 'aa bb', 'bb cc'), queries=('aa', 'bb OR zz', 'aa AND bb', 'aa NOT bb', '"bb cc"', 'b*', 'zz')):
    lex, idx, ti = h_pure.real_text(e, kind)
    for i in range(n):
        ti.index_doc(i, e.choice('t%d' % i, texts))
    qs = {q: lambda x, q=q: x.apply(q) for q in queries}

    def answers(x):
        return [('documents', x.documentCount), ('words', x.wordCount)] + [(q, lambda q=q: x.apply(q)) for q in queries]
    run(e, ti, qs, {'index': lambda x: x.index_doc(9, 'aa bb cc'), 'unindex': lambda x: x.unindex_doc(0),
                    'reindex': lambda x: x.index_doc(1, 'dd'), 'clear': lambda x: x.clear()}, answers)
