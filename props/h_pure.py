"""Queries change neither the index nor what the caller passes."""
from props import h_field, h_keyword, h_topic, h_text


def plain(e, r):
    """an answer as (kind, data), detached from the object returned"""
    if r is None:
        return ('none', None)
    if isinstance(r, (bool, int, float)) or not hasattr(r, '__iter__') or isinstance(r, str):
        return ('value', r)
    if hasattr(r, 'items') and hasattr(r, 'keys'):
        return ('map', list(e.pairs(r)))
    if isinstance(r, (list, tuple)):
        return ('list', list(r))
    if hasattr(r, '__next__'):
        return ('list', list(r))
    return ('set', list(e.ids(r)))


def same(e, a, b, msg):
    e.check(a[0] == b[0], msg + ' (kind of answer)')
    kind, x, y = a[0], a[1], b[1]
    if kind == 'none':
        return
    if kind == 'value':
        e.check(x == y, msg)
        return
    e.check(len(x) == len(y), msg + ' (size)')
    if kind == 'list':
        for p, q in zip(x, y):
            e.check(p == q, msg)
    elif kind == 'set':
        for p in x:
            e.check(e.anyeq(p, y), msg)
    else:
        for p, s in x:
            e.check(e.or_(*[e.and_(p == q, s == t) for q, t in y]), msg)


def snapshot(e, probes):
    return [(label, plain(e, f())) for label, f in probes]


def twice(e, query, probes):
    """ask `probes`, then `query` twice, then `probes` again"""
    before = snapshot(e, probes)
    first = plain(e, query())
    middle = snapshot(e, probes)
    second = plain(e, query())
    after = snapshot(e, probes)
    same(e, first, second, 'the same answer to the same query')
    for (label, x), (l2, y), (l3, z) in zip(before, middle, after):
        same(e, x, y, label + ' after a query')
        same(e, y, z, label + ' after a repeated query')
    if first[0] in ('set', 'map', 'list'):
        e.observe('answer', first[1] if first[0] == 'list' else ('sorted', first[1]))
        if first[1]:
            e.cover('found')


# --------------------------------------------------------------- field

def field(e, n, kind, query, forms=(), limits=(None,), ops=('index', 'unindex'), bits=32, override=None, nq=2, preload=0):
    idx = h_field.make(e, bits)
    model = h_field.history(e, idx, n, kind, bits, ops) if not preload else {}
    for i in range(preload):
        idx.index_doc(2000 + i, i % 9 * 10)
        model[2000 + i] = i % 9 * 10
    if preload:
        d, v = e.choice('d', (2000, 2007, 7)), e.int('v', 19, 21)
        idx.index_doc(d, v)
        model[d] = v
    if override:
        setattr(idx, override, True)
    lo = h_field.value(e, 'plo', kind) if not preload else 40
    every = idx.family.IF.Set([d for d in model])
    probes = [('documentCount', idx.documentCount), ('wordCount', idx.wordCount),
              ('all documents', lambda: idx.apply((None, None)))]
    if query == 'apply':
        probes.append(('a range', lambda: idx.apply((lo, None))))
        a, b = h_field.value(e, 'lo', kind), h_field.value(e, 'hi', kind) if not preload else 60
        q = (None, b) if e.flag('open') else (a, b)
        twice(e, lambda: idx.apply(q), probes)
        return
    else:
        probes.append(('a value', lambda: idx.apply((lo, lo))))
        if not override:
            probes.append(('sort', lambda: idx.sort(every)))
    form = e.choice('form', forms)
    ids = []
    for i in range(nq):
        d = h_field.docid(e, 'q%d' % i, bits) if not preload else e.choice('q%d' % i, (7, 2001))
        if d in ids:
            e.stop()
        ids.append(d)
    if preload:
        ids += list(range(2000, 2000 + preload, 2))
    docids = list(ids)
    if form == 'tuple':
        docids = tuple(ids)
    elif form in ('Set', 'TreeSet'):
        docids = getattr(idx.family.IF, form)(ids)
    elif form == 'BTree':
        docids = idx.family.IF.BTree([(d, 1) for d in ids])
    elif form == 'result':
        docids = idx.apply((None, None))
        ids = list(e.ids(docids))
    was = list(docids)
    rev, limit = e.flag('reverse'), e.choice('limit', limits)
    twice(e, lambda: list(idx.sort(docids, rev, limit)), probes)
    now = list(docids)
    e.check(len(now) == len(was), 'the documents passed by the caller')
    for x, y in zip(was, now):
        e.check(x == y, 'the documents passed by the caller')


# ------------------------------------------------------------- keyword

def keyword(e, n, sizes, kind, qsizes, norm='none', ops=('index', 'unindex'), threshold=None, optimize=False,
            forms=('list', 'tuple', 'dict', 'dict+'), bits=32, preload=0):
    fold = h_keyword.FOLD[norm]
    idx = h_keyword.make(e, norm, bits)
    if threshold is not None:
        idx.tree_threshold = threshold
    model, seen = {}, []
    for i in range(preload):
        model[2000 + i] = ['a', 'b', 'b'][:1 + i % 3][-2:]
        idx.index_doc(2000 + i, model[2000 + i])
    for i in range(n):
        h_keyword.step(e, idx, model, i, ops, sizes, kind, fold, bits, None if i else 'index',
                       **({'ids': (2000, 2002, 9)} if preload else {}))
    if optimize:
        idx.optimize()
    for ws in list(model.values())[preload and -4:]:
        seen.extend(ws)
    q = h_keyword.words(e, 'q', qsizes, kind)
    unknown = h_keyword.word(e, 'unknown', kind if kind[0] != '<' else kind[1:])
    probe = h_keyword.docid(e, 'probe', bits) if not preload else 9
    probes = [('documentCount', idx.documentCount), ('wordCount', idx.wordCount),
              ('has_doc', lambda: idx.has_doc(probe)),
              ('all documents', lambda: idx.search(list(seen), 'or')),
              ('a keyword', lambda: idx.search([unknown], 'or')),
              ('two keywords', lambda: idx.search(q[:1] + [unknown]))]
    for i, w in enumerate(h_keyword.uniq(seen)):
        probes.append(('keyword %d' % i, lambda w=w: idx.search([w])))
    op = e.choice('qop', ('and', 'or'))
    form = e.choice('form', forms)
    if form == 'str':
        query, ask = q[0], None
        twice(e, lambda: idx.search(query, op), probes)
        return
    query = list(q) if form != 'tuple' else tuple(q)
    if form in ('list', 'tuple'):
        twice(e, lambda: idx.search(query, op), probes)
    else:
        d = {'query': query}
        if form == 'dict+':
            d['operator'] = op
        elif op != 'and':
            e.stop()
        keys = len(d)
        twice(e, lambda: idx.apply(d), probes)
        e.check(len(d) == keys and d['query'] is query and (keys == 1 or d['operator'] == op),
                'the dictionary of the caller')
    e.check(len(query) == len(q), 'the query of the caller')
    for x, y in zip(query, q):
        e.check(x == y, 'the query of the caller')


# --------------------------------------------------------------- topic

def topic(e, n, names=('f', 'g'), forms=('list', 'tuple', 'dict'), bits=32, preload=0):
    idx = h_topic.make(e, bits)
    model = {}
    for name in names:
        idx.addFilter(h_topic.fset(e, name, bits))
        model[name] = []
    for i in range(preload):
        idx.index_doc(2000 + i, h_topic.Doc(f=i % 2, g=i % 7))
    for i in range(n):
        h_topic.step(e, idx, model, i, ('index', 'unindex') if i else ('index',), names, bits,
                     (2000, 2003, 9) if preload else None)
    probes = [('filter ' + name, lambda name=name: idx.search(name)) for name in names]
    probes.append(('all', lambda: idx.search(list(names), 'or')))
    probes.append(('both', lambda: idx.search(list(names))))
    probes.append(('none', lambda: idx.search(['z'])))
    q = e.choice('q', h_topic.QUERIES['3'] if len(names) == 3 else h_topic.QUERIES['2'])
    op = e.choice('qop', ('and', 'or'))
    form = e.choice('form', forms)
    if form == 'dict':
        query = list(q)
        d = {'operator': op, 'query': query}
        twice(e, lambda: idx.apply(d), probes)
        e.check(sorted(d) == ['operator', 'query'] and d['operator'] == op and d['query'] is query
                and query == list(q), 'the dictionary of the caller')
        return
    query = q if form == 'tuple' else list(q)
    twice(e, lambda: idx.search(query, op), probes)
    e.check(list(query) == list(q), 'the query of the caller')


# ---------------------------------------------------------------- text

def text_probes(e, idx, docs, words):
    probe = e.int('probe', -2 ** 31, 2 ** 31 - 1)
    probes = [('documentCount', idx.documentCount), ('wordCount', idx.wordCount),
              ('has_doc', lambda: idx.has_doc(probe))]
    for i, w in enumerate(words):
        probes.append(('word %d' % i, lambda w=w: idx.search([w])))
        if i == 0:
            probes.append(('weight', lambda w=w: idx.query_weight([[w]])))
    for i, (d, ws) in enumerate(docs):
        probes.append(('words of %d' % i, lambda d=d: list(idx.get_words(d))))
    return probes


def text(e, kind, lens, wmax=127, nq=(1, 2), calls=('search', 'phrase', 'glob', 'weight'), cutoff=None, un=False, preload=0):
    idx = h_text.make(e, kind)
    if cutoff is not None:
        idx.DICT_CUTOFF = cutoff
    docs = []
    for i in range(preload):
        ws = [1, 2, 2, 300][:1 + i % 4]
        idx.index_doc(2000 + i, list(ws))
        docs.append((2000 + i, ws))
    for i, ns in enumerate(lens):
        n = e.choice('n%d' % i, ns)
        ws = [e.int('w%d.%d' % (i, j), 1, wmax) for j in range(n)]
        idx.index_doc(10 + i, list(ws))
        docs.append((10 + i, ws))
    if un:
        idx.unindex_doc(10)
        docs = [x for x in docs if x[0] != 10]
    words = h_text.distinct([w for d, ws in docs for w in ws])
    call = e.choice('call', calls)
    q = [e.int('q%d' % i, 0, wmax) for i in range(e.choice('nq', nq))]
    probes = text_probes(e, idx, docs, words)
    arg = list(q)
    if call == 'search':
        twice(e, lambda: idx.search(arg), probes)
    elif call == 'phrase':
        twice(e, lambda: idx.search_phrase(arg), probes)
    elif call == 'glob':
        twice(e, lambda: idx.search_glob(arg), probes)
    else:
        arg = [[x] for x in q]
        twice(e, lambda: idx.query_weight(arg), probes)
        e.check(len(arg) == len(q), 'the terms passed by the caller')
        for x, y in zip(arg, q):
            e.check(len(x) == 1 and x[0] == y, 'the terms passed by the caller')
        return
    e.check(len(arg) == len(q), 'the words passed by the caller')
    for x, y in zip(arg, q):
        e.check(x == y, 'the words passed by the caller')


def real_text(e, kind):
    L = e.mod('zope.index.text.lexicon')
    lex = L.Lexicon(L.Splitter(), L.CaseNormalizer(), L.StopWordRemover())
    idx = h_text.make(e, kind, lex=lex)
    return lex, idx, e.mod('zope.index.text.textindex').TextIndex(lex, idx)


def shape(node):
    """a parse tree as nested lists"""
    v = node.getValue()
    if node.nodeType() == 'NOT':
        return ['NOT', shape(v)]
    if node.nodeType() in ('AND', 'OR'):
        return [node.nodeType()] + [shape(x) for x in v]
    return [node.nodeType(), v]


def parse(e, kind, texts, length, alphabet, queries=None, calls=('apply', 'parse')):
    """any query text on an index with a lexicon of its own"""
    lex, idx, ti = real_text(e, kind)
    words = []
    for i, choices in enumerate(texts):
        t = e.choice('t%d' % i, choices)
        ti.index_doc(i + 1, t)
        words.extend(t.split())
    words = sorted(set(words))
    P = e.mod('zope.index.text.parsetree')
    qp = e.mod('zope.index.text.queryparser')
    q = e.str('q', e.choice('len', length), alphabet) if queries is None else e.choice('query', queries)

    def ask():
        try:
            if call == 'apply':
                return ti.apply(q)
            if call == 'execute':
                was = shape(tree[0])
                r = tree[0].executeQuery(idx)
                e.check(shape(tree[0]) == was, 'the tree executed')
                return r
            if call == 'parse':
                t = qp.QueryParser(lex).parseQuery(q)
                return list(t.terms())
            if call == 'terms':
                return list(lex.parseTerms(q))
            if call == 'ids':
                return list(lex.termToWordIds(q))
            if call == 'glob':
                return list(lex.globToWordIds(q))
            return idx.search(q)
        except (P.ParseError, P.QueryError) as x:
            return 'error ' + type(x).__name__
    call = e.choice('call', calls)
    tree = []
    if call == 'execute':
        try:
            tree.append(qp.QueryParser(lex).parseQuery(q))
        except P.ParseError:
            e.stop()
    probes = [('words of the lexicon', lex.wordCount), ('documents', ti.documentCount), ('words', ti.wordCount)]
    for w in words:
        probes.append(('id of ' + w, lambda w=w: lex.get_wid(w)))
        probes.append(('word of ' + w, lambda w=w: lex.get_wid(w) and lex.get_word(lex.get_wid(w))))
        probes.append(('search ' + w, lambda w=w: lex.get_wid(w) and ti.apply(w)))
    probes.append(('unknown', lambda: lex.get_wid('zz')))
    probes.append(('known words', lambda: sorted(lex.words())))
    probes.append(('known ids', lambda: sorted(lex.wids())))
    twice(e, ask, probes)
