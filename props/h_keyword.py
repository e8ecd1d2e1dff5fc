"""Keyword index."""


def docid(e, name, bits=32):
    return e.int(name, -2 ** (bits - 1), 2 ** (bits - 1) - 1)


def word(e, name, kind):
    if kind == 'int':
        return e.int(name)
    if kind == 'case':
        return e.str(name, e.choice(name + 'n', (1, 2)), 'aAbB')
    if kind == 'case1':
        return e.str(name, 1, 'aAbB')
    if kind == 'unicode':
        return e.str(name, e.choice(name + 'n', (1, 2)), 'aA\xc0\xe0\u0130\u03a3\u03c3\u03c2')
    if kind == 'len2':
        return e.str(name, e.choice(name + 'n', (0, 1, 2)), 'ab')
    return e.str(name, 1, kind)


def words(e, name, sizes, kind):
    n = e.choice(name + '#', sizes)
    ws = [word(e, '%s.%d' % (name, i), kind[1:] if kind[0] == '<' else kind) for i in range(n)]
    if kind[0] == '<':
        # in ascending order, to have fewer cases
        for a, b in zip(ws, ws[1:]):
            e.assume(a <= b)
    return ws


def fold_none(ws):
    return list(ws)


def fold_lower(ws):
    return [w.lower() for w in ws]


def fold_drop(ws):
    return [w for w in ws if w != 'x']


def fold_merge(ws):
    return ['a' if w == 'b' else w for w in ws]


def fold_dropset(ws):
    r = set()
    for w in ws:
        if w != 'x':
            r.add('a' if w == 'b' else w)
    return r


def fold_gen(ws):
    return (w for w in ws if w != 'x')


FOLD = {'none': fold_none, 'lower': fold_lower, 'drop': fold_drop, 'merge': fold_merge, 'dropset': fold_dropset,
        'gen': fold_gen}


def make(e, norm='none', bits=32):
    kw = e.mod('zope.index.keyword.index')
    if norm == 'none':
        cls = kw.KeywordIndex
    elif norm == 'lower':
        cls = kw.CaseInsensitiveKeywordIndex
    else:
        fold = FOLD[norm]

        class Sub(kw.KeywordIndex):
            def normalize(self, seq):
                return fold(seq)
        cls = Sub
    if bits == 32:
        return cls()
    return cls(family=e.family(bits))


def uniq(ws):
    out = []
    for w in ws:
        if not (w in out):
            out.append(w)
    return out


SEQ = (list, tuple)


def step(e, idx, model, i, ops, sizes, kind, fold, bits=32, first=None, ids=None):
    op = first or e.choice('op%d' % i, ops)
    if op == 'clear':
        idx.clear()
        model.clear()
        e.cover('clear')
        return
    if op == 'threshold':
        idx.tree_threshold = e.int('t%d' % i)
        e.cover('threshold')
        return
    if op == 'optimize':
        idx.optimize()
        e.cover('optimize')
        return
    d = e.int('d%d' % i, ids[0], ids[1]) if ids else docid(e, 'd%d' % i, bits)
    if op == 'index':
        ws = words(e, 'w%d' % i, sizes, kind)
        if i % 2:
            idx.index_doc(d, tuple(ws))
        else:
            idx.index_doc(d, list(ws))
        f = uniq(fold(ws))
        if d in model:
            e.cover('reindex')
            if not f:
                e.cover('reindex with nothing')
        if f:
            model[d] = f
        elif d in model:
            del model[d]
    elif op == 'unindex':
        if d in model:
            e.cover('unindex known')
            del model[d]
        else:
            e.cover('unindex unknown')
        idx.unindex_doc(d)


def matching(model, q, op):
    if not q:
        return []
    out = []
    for d, ws in model.items():
        hit = [w in ws for w in q]
        if all(hit) if op == 'and' else any(hit):
            out.append(d)
    return out


def check_search(e, idx, model, sizes, kind, fold, name='q', forms=('search', 'apply', 'dict', 'dict+')):
    q = words(e, name, sizes, kind)
    op = e.choice(name + 'op', ('and', 'or'))
    form = e.choice(name + 'form', forms)
    query = tuple(q) if len(q) == 2 else list(q)
    if len(q) == 1 and isinstance(q[0], str) and e.flag(name + 'str'):
        query = q[0]
    if form == 'search':
        r = idx.search(query, op)
    elif form == 'apply':
        if op != 'and':
            e.stop()
        r = idx.apply(query)
    elif form == 'dict':
        if op != 'and':
            e.stop()
        r = idx.apply({'query': query})
    else:
        r = idx.apply({'query': query, 'operator': op})
    want = matching(model, fold(q), op)
    e.check_ids(r, want, 'search result')
    if want:
        e.cover('found')
        if len(want) > 1:
            e.cover('several found')


def check_stats(e, idx, model, d=None):
    ws = []
    for v in model.values():
        for w in v:
            if not (w in ws):
                ws.append(w)
    e.observe('counts', (idx.documentCount(), idx.wordCount()))
    e.check(idx.documentCount() == len(model), 'documentCount')
    e.check(idx.wordCount() == len(ws), 'wordCount')
    if d is not None:
        e.check(idx.has_doc(d) == (d in model), 'has_doc')


def search_history(e, n, sizes, kind, qsizes, norm='none', ops=('index', 'unindex', 'clear'), bits=32, threshold=None,
                   forms=('search', 'apply', 'dict', 'dict+'), stats=False, first='index', qkind=None):
    fold = FOLD[norm]
    idx = make(e, norm, bits)
    if threshold is not None:
        idx.tree_threshold = e.int('threshold') if threshold == 'sym' else threshold
    model = {}
    for i in range(n):
        step(e, idx, model, i, ops, sizes, kind, fold, bits, None if i else first)
    if stats:
        check_stats(e, idx, model)
    check_search(e, idx, model, qsizes, qkind or kind, fold, forms=forms)


def stats_history(e, n, sizes, kind, norm='none', ops=('index', 'unindex', 'clear'), bits=32, every=True, first='index'):
    fold = FOLD[norm]
    idx = make(e, norm, bits)
    model = {}
    for i in range(n):
        step(e, idx, model, i, ops, sizes, kind, fold, bits, None if i else first)
        if every or i == n - 1:
            check_stats(e, idx, model)
    check_stats(e, idx, model, docid(e, 'probe', bits))
    # nothing is left of removed keywords
    left = []
    for v in model.values():
        left.extend(v)
    left = uniq(left)
    e.check_ids(idx.search(left, 'or') if norm in ('none', 'lower') else idx.search(left, 'or'),
                list(model), 'every document is found by the current keywords')


def preload(e, n, common, sizes, kind, steps, ops, threshold=None, op='and', ids=None):
    """n documents with one common keyword (below/at/above the threshold), then symbolic steps"""
    idx = make(e)
    if threshold is not None:
        idx.tree_threshold = threshold
    model = {}
    for i in range(n):
        idx.index_doc(i * 3, [common])
        model[i * 3] = [common]
    for i in range(steps):
        step(e, idx, model, i, ops, sizes, kind, fold_none, ids=ids)
    check_stats(e, idx, model)
    q = words(e, 'q', (1, 2), kind)
    e.check_ids(idx.search(q, op), matching(model, q, op), 'search result')


def bad_queries(e):
    idx = make(e)
    idx.index_doc(1, ['a', 'b'])
    op = e.str('op', e.choice('n', (0, 1, 2, 3)), 'andorAN')
    q = words(e, 'q', (0, 1, 2), 'ab')
    e.assume(op != 'and')
    e.assume(op != 'or')
    e.must_raise(TypeError, 'unknown operator raises TypeError', idx.search, q, op)
    e.must_raise(TypeError, 'unknown operator raises TypeError (apply)', idx.apply, {'query': q, 'operator': op})
    s = e.str('seq', e.choice('m', (0, 1, 2)), 'ab')
    e.must_raise(TypeError, 'a string is no keyword sequence', idx.index_doc, 2, s)
    check_stats(e, idx, {1: ['a', 'b']}, 2)


def many(e, letters, norm='none', third=('unindex', 'index'), threshold=None, seq=True):
    """documents with many keywords: the first one with the first k letters,
    the second one with any of them"""
    fold = FOLD[norm]
    idx = make(e, norm)
    if threshold is not None:
        idx.tree_threshold = threshold
    model = {}

    def index(i, ws):
        d = docid(e, 'd%d' % i)
        idx.index_doc(d, list(ws))
        f = uniq(fold(ws))
        if d in model:
            e.cover('reindex')
            del model[d]
        if f:
            model[d] = f
    k = e.choice('k', tuple(range(1, len(letters))))
    first = list(letters[:k])
    index(0, first)
    bits = e.pick('set', 2 ** len(letters))
    index(1, [w for i, w in enumerate(reversed(letters)) if bits >> i & 1])
    if third:
        if e.choice('third', third) == 'unindex':
            d = docid(e, 'd2')
            if d in model:
                e.cover('unindex')
                del model[d]
            idx.unindex_doc(d)
        else:
            index(2, list(letters[len(letters) // 2:]))
    check_stats(e, idx, model)
    for w in uniq(fold(letters)):
        e.check_ids(idx.search([w]), matching(model, [w], 'and'), 'documents with one keyword')
    for j in range(2, len(letters) + 1):
        for op in ('and', 'or'):
            q = list(letters[:j]) if j % 2 else list(letters[-j:])
            e.check_ids(idx.search(q, op), matching(model, fold(q), op), 'documents with %s of several keywords' % op)
    for q in ([letters[-1]] + list(letters[:2]) + [letters[-1]], [letters[0]] * 2 + list(letters[1:3]),
              [letters[1]] * 3 + [letters[-2]]):
        for op in ('and', 'or'):
            e.check_ids(idx.search(q, op), matching(model, fold(q), op), 'documents with %s of repeated keywords' % op)


def sizes(e, n, thresholds, steps, ids=None):
    """sets of every size, converted to trees and back by optimize()"""
    idx = make(e)
    idx.tree_threshold = e.choice('t0', thresholds)
    model = {}
    for i in range(e.choice('n', n)):
        idx.index_doc(i * 3, ['a', 'b'] if i % 2 else ['a'])
        model[i * 3] = ['a', 'b'] if i % 2 else ['a']
    idx.tree_threshold = e.choice('t1', thresholds)
    idx.optimize()
    for i in range(steps):
        step(e, idx, model, i, ('index', 'unindex'), (1,), 'ab', fold_none, ids=ids)
    check_stats(e, idx, model)
    for w in 'ab':
        for op in ('and', 'or'):
            e.check_ids(idx.search([w], op), matching(model, [w], op), 'documents with a keyword')
