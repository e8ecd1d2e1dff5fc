"""Okapi and cosine text indexes."""


class Lex:
    """A lexicon whose texts are lists of word ids (0: unknown)."""

    def sourceToWordIds(self, text):
        return list(text)

    def termToWordIds(self, term):
        if isinstance(term, (list, tuple)):
            return list(term)
        return [term]

    def globToWordIds(self, pattern):
        return list(pattern)


def make(e, kind, bits=32, lex=None):
    lex = Lex() if lex is None else lex
    if kind == 'okapi':
        cls = e.mod('zope.index.text.okapiindex').OkapiIndex
    else:
        cls = e.mod('zope.index.text.cosineindex').CosineIndex
    return cls(lex, e.family(bits))


def distinct(xs):
    out = []
    for x in xs:
        if not any([x == y for y in out]):
            out.append(x)
    return out


def check_scores(e, got, want, msg):
    """two result mappings agree"""
    g, w = e.pairs(got), e.pairs(want)
    e.check(len(g) == len(w), msg + ' (number of documents)')
    for d, s in w:
        hit = None
        for d2, s2 in g:
            if d2 == d:
                hit = s2
        e.check(hit is not None, msg + ' (document)')
        e.close(hit, s, msg + ' (score)')


def history(e, kind, steps, wmax=127, preload=0, cutoff=None, phrases=False, bits=32, dmin=None, dmax=None, ids=None):
    """steps: per step the possible operations ('0'..'3': index that many
    words, 'u', 'c')"""
    idx = make(e, kind, bits)
    if cutoff is not None:
        idx.DICT_CUTOFF = cutoff
    hi = 2 ** (bits - 1) - 1 if dmax is None else dmax
    lo = -hi - 1 if dmax is None else 1 if dmin is None else dmin
    docs = []       # (docid, words), current
    seen = []
    for i in range(preload):
        docs.append((1000 + i, [1]))
        idx.index_doc(1000 + i, [1])
    if preload:
        seen.append(1)
    for i, ops in enumerate(steps):
        op = e.choice('op%d' % i, ops)
        if op == 'c':
            idx.clear()
            docs = []
            e.cover('clear')
            continue
        d = e.choice('d%d' % i, ids) if ids else e.int('d%d' % i, lo, hi)
        if op == 'u':
            if any([d == x for x, ws in docs]):
                e.cover('unindex')
            else:
                e.cover('unindex unknown')
            idx.unindex_doc(d)
            docs = [(x, ws) for x, ws in docs if not (x == d)]
            continue
        ws = [e.int('w%d.%d' % (i, j), 1, wmax) for j in range(int(op))]
        n = idx.index_doc(d, list(ws))
        e.check(n == len(ws), 'index_doc returns the number of words')
        if any([d == x for x, v in docs]):
            e.cover('reindex')
        docs = [(x, v) for x, v in docs if not (x == d)] + [(d, ws)]
        seen.extend(ws)
    fresh = make(e, kind, bits)
    for d, ws in docs:
        fresh.index_doc(d, list(ws))
    compare_with(e, idx, fresh, docs, distinct(seen), phrases)


def compare_with(e, idx, fresh, docs, words, phrases):
    e.check(idx.documentCount() == len(docs), 'documentCount')
    cur = distinct([w for d, ws in docs for w in ws])
    e.check(idx.wordCount() == len(cur), 'wordCount')
    e.check(fresh.documentCount() == len(docs), 'documentCount of a fresh index')
    e.check(fresh.wordCount() == len(cur), 'wordCount of a fresh index')
    for d, ws in docs:
        e.check(idx.has_doc(d), 'has_doc of a current document')
        e.check_list(idx.get_words(d), ws, 'words of a document')
    probe = e.int('probe', -2 ** 31, 2 ** 31 - 1)
    if e.not_(e.anyeq(probe, [d for d, ws in docs])):
        e.check(not idx.has_doc(probe), 'has_doc of other ids')
    for w in words:
        r = idx.search([w])
        holders = [d for d, ws in docs if any([w == x for x in ws])]
        e.check_ids(r, holders, 'documents with a word')
        check_scores(e, r, fresh.search([w]), 'search like a fresh index')
        e.observe('scores', [s for d, s in sorted_pairs(e, r)])
        if holders:
            e.cover('found')
            e.close(idx.query_weight([[w]]), fresh.query_weight([[w]]), 'query weight like a fresh index')
    if len(words) > 1:
        t = [words[0], words[-1]]
        check_scores(e, idx.search(t), fresh.search(t), 'several words like a fresh index')
        if phrases:
            check_scores(e, idx.search_phrase(t), fresh.search_phrase(t), 'phrase like a fresh index')
        g = words[:3]
        check_scores(e, idx.search_glob(g), fresh.search_glob(g), 'glob like a fresh index')


def sorted_pairs(e, r):
    return [(d, s) for d, s in r.items()]


# -------------------------------------------------------------- formulas

def okapi_score(e, f, n, total, N, ft):
    tf = f * 2.2 / (f + 1.2 * (0.25 + 0.75 * n * N / total))
    return tf * e.log(1 + N / ft)


def formula(e, kind, ndocs, maxlen, terms=1, wmax=127):
    """scores of small documents against the documented formula"""
    idx = make(e, kind)
    docs = []
    for i in range(ndocs):
        ws = [e.int('w%d.%d' % (i, j), 1, wmax) for j in range(e.choice('n%d' % i, tuple(range(maxlen + 1))))]
        idx.index_doc(10 + i, list(ws))
        docs.append((10 + i, ws))
    q = [e.int('q%d' % i, 1, wmax) for i in range(terms)]
    check_formula(e, kind, idx, docs, q)


def check_formula(e, kind, idx, docs, q):
    r = dict([(d, s) for d, s in e.pairs(idx.search(list(q)))])
    N = len(docs)
    total = sum([len(ws) for d, ws in docs])
    for d, ws in docs:
        want, hit = 0, False
        for t in q:
            ft = len([1 for x, v in docs if any([t == y for y in v])])
            f = len([1 for y in ws if y == t])
            if not f:
                continue
            hit = True
            if kind == 'okapi':
                want = want + okapi_score(e, f, len(ws), float(total), float(N), ft)
            else:
                W2 = 0
                for u in distinct(ws):
                    c = len([1 for y in ws if y == u])
                    W2 = W2 + (1 + e.log(c)) ** 2
                want = want + (1 + e.log(f)) / e.sqrt(W2) * e.log(1 + float(N) / ft)
        e.check(hit == (d in r), 'exactly the documents with one of the words')
        if hit:
            e.cover('hit')
            e.observe('score', r[d])
            e.close(r[d], want, 'score by the formula')
        else:
            e.cover('miss')
    e.check(len(r) <= len(docs), 'documents only')


def formula_bulk(e, kind, n, steps):
    """more documents than fit in a dictionary, then operations on them"""
    idx = make(e, kind)
    docs = {}
    for i in range(n):
        docs[10 + i] = [1] + [2] * (i % 3) + [3 + i % 5, 200 + i] * (i % 4)
        idx.index_doc(10 + i, list(docs[10 + i]))
    for i in range(steps):
        d = e.choice('d%d' % i, (10, 10 + n // 2, 9 + n, 500))
        op = e.choice('op%d' % i, ('index', 'unindex', 'more'))
        e.cover(op)
        if op == 'unindex':
            idx.unindex_doc(d)
            docs.pop(d, None)
            continue
        ws = [1, 2, 2, 200] if op == 'index' else docs.get(d, [4, 5]) + [3, 201]
        idx.index_doc(d, list(ws))
        docs[d] = ws
    w = e.int('w', 1, 4)
    for q in ([1], [w], [200, 201], [1, w, 210]):
        check_formula(e, kind, idx, list(docs.items()), q)


def counts(e, kind, counts):
    """one document with a word many times"""
    idx = make(e, kind)
    n = e.choice('count', counts)
    if n > 20:
        w, o = 300, 2
    else:
        w, o = e.int('w', 1, 127), e.int('o', 1, 127)
        e.assume(w != o)
    others = e.choice('others', (0, 1, 2))
    ws = [w] * n + [o] * others
    idx.index_doc(10, list(ws))
    idx.index_doc(11, [o])
    r = dict([(d, s) for d, s in e.pairs(idx.search([w]))])
    e.check(list(r) == [10], 'exactly the documents with the word')
    if kind == 'okapi':
        want = okapi_score(e, n, len(ws), float(len(ws) + 1), 2.0, 1)
    else:
        W2 = (1 + e.log(n)) ** 2
        if others:
            W2 = W2 + (1 + e.log(others)) ** 2
        want = (1 + e.log(n)) / e.sqrt(W2) * e.log(1 + 2.0 / 1)
    e.observe('score', r[10])
    e.close(r[10], want, 'score by the formula')
    # reindexed with one more
    idx.index_doc(10, ws + [w])
    if kind == 'okapi':
        want = okapi_score(e, n + 1, len(ws) + 1, float(len(ws) + 2), 2.0, 1)
    else:
        W2 = (1 + e.log(n + 1)) ** 2
        if others:
            W2 = W2 + (1 + e.log(others)) ** 2
        want = (1 + e.log(n + 1)) / e.sqrt(W2) * e.log(1 + 2.0 / 1)
    r = dict([(d, s) for d, s in e.pairs(idx.search([w]))])
    e.close(r[10], want, 'score by the formula after reindexing')
    e.cover('counts')


def stored(e, idx):
    """the index keeps its documented stored form"""
    return all([hasattr(idx, a) for a in ('_wordinfo', '_docweight', '_docwords')])


def okapi_state(e, nhits=1, tree=False, big=10 ** 6, steps=False):
    """score of documents in a stored index with symbolic statistics"""
    idx = make(e, 'okapi')
    if not stored(e, idx) or not hasattr(idx, '_totaldoclen'):
        e.stop()
    N = e.int('N', nhits, big)
    idx.documentCount.set(N)
    info = e.family().IF.BTree() if tree else {}
    total = e.int('total', nhits, big * 1000)
    spec = []
    for i in range(nhits):
        f = e.int('f%d' % i, 1, big)
        n = e.int('len%d' % i, 1, big)
        e.assume(f <= n)
        info[i + 1] = f
        idx._docweight[i + 1] = n
        spec.append((i + 1, f, n))
    e.assume(total >= sum([n for d, f, n in spec]) + (N - nhits) * 0)
    idx._wordinfo[7] = info
    idx._totaldoclen.set(total)
    if steps:
        k = e.pick('words', 2) + 1
        idx.index_doc(50, [7] * k)
        e.cover('steps')
        if e.flag('reindex'):
            k = 3 - k
            idx.index_doc(50, [7] * k)
        N, total, nhits = N + 1, total + k, nhits + 1
        spec.append((50, k, k))
        if e.flag('unindex'):
            idx.unindex_doc(50)
            N, total, nhits = N - 1, total - k, nhits - 1
            spec.pop()
    r = dict([(d, s) for d, s in e.pairs(idx.search([7]))])
    e.check(len(r) == nhits, 'exactly the documents with the word')
    for d, f, n in spec:
        e.check(d in r, 'a document with the word')
        # mean_len = total / N
        tf = f * 2.2 / (f + 1.2 * (0.25 + 0.75 * n / (total / float_(N))))
        e.close(r[d], tf * e.log(1 + float_(N) / nhits), 'score by the formula')
        # monotone, bounded
        e.check(e.and_(r[d] > 0, r[d] <= 2.2 * e.log(1 + float_(N) / nhits) * 1.000001), 'tf is at most k1 + 1')
    e.cover('state')


def cosine_state(e, nhits):
    """score of documents in a stored index with symbolic weights"""
    idx = make(e, 'cosine')
    if not stored(e, idx):
        e.stop()
    ndocs = nhits + e.choice('others', (0, 1, 2))
    idx.documentCount.set(ndocs)
    for d in range(ndocs):
        idx._docweight[d + 1] = e.real('W%d' % d, 1, 1000)
    info = {}
    for d in range(nhits):
        info[d + 1] = e.real('w%d' % d, 0, 1)
        e.assume(info[d + 1] > 0)
    idx._wordinfo[7] = info
    r = dict([(d, s) for d, s in e.pairs(idx.search([7]))])
    e.check(len(r) == nhits, 'exactly the documents with the word')
    for d in range(nhits):
        e.check(d + 1 in r, 'a document with the word')
        e.close(r[d + 1], info[d + 1] * e.log(1 + float(ndocs) / nhits), 'score by the formula')
    e.cover('state')


def cosine_norm(e, maxlen):
    """sum of the squared weights of the words of a document"""
    idx = make(e, 'cosine')
    ws = [e.int('w%d' % i, 1, 127) for i in range(e.choice('n', tuple(range(1, maxlen + 1))))]
    idx.index_doc(1, list(ws))
    total = 0
    for w in distinct(ws):
        s = dict([(d, x) for d, x in e.pairs(idx.search([w]))])[1]
        total = total + (s / e.log(1 + 1.0)) ** 2
    e.close(total, 1, 'norm of a document')
    e.cover('norm')


def float_(x):
    return float(x)


# ---------------------------------------------------------------- phrases

def phrase(e, kind, doclens, phraselens, wmax=2 ** 28 - 1, wmin=1, ndocs=1, bits=32, unknown=False, near=False,
           domain=None):
    """phrase search against the word sequences"""
    idx = make(e, kind, bits)

    def word(name):
        if domain:
            return domain[e.pick(name, len(domain))]
        w = e.int(name, wmin, wmax)
        if near:
            # around the changes of the code length
            e.assume(e.or_(e.and_(w >= 0x7e, w <= 0x81), e.and_(w >= 0x3ffe, w <= 0x4001),
                           e.and_(w >= 0x1ffffe, w <= 0x200001), w <= 2, w >= 2 ** 28 - 2))
        return w
    docs = []
    for i in range(ndocs):
        ws = [word('w%d.%d' % (i, j)) for j in range(e.choice('n%d' % i, doclens))]
        idx.index_doc(5 + i, list(ws))
        docs.append((5 + i, ws))
    p = [word('p%d' % j) for j in range(e.choice('np', phraselens))]
    if unknown and e.flag('unknown'):
        p[-1] = 0
    res = idx.search_phrase(list(p))
    r = dict([(d, s) for d, s in e.pairs(res)])
    single = [dict([(d, s) for d, s in e.pairs(idx.search([w]))]) for w in p]
    for d, ws in docs:
        hit = any([all([a == b for a, b in zip(ws[k:], p)]) for k in range(len(ws) - len(p) + 1)])
        e.check(hit == (d in r), 'exactly the documents with the words in sequence')
        if hit:
            e.cover('hit')
            e.observe('score', r[d])
            e.close(r[d], sum([x[d] for x in single]), 'score of a phrase')
        else:
            e.cover('miss')
    e.check(len(r) <= ndocs, 'documents only')


# ----------------------------------------------------------------- weights

def okapi_bound(e, ndocs, words, terms, big=10 ** 6):
    """scores never exceed the weight, in a stored index with symbolic
    statistics"""
    idx = make(e, 'okapi')
    if not stored(e, idx) or not hasattr(idx, '_totaldoclen'):
        e.stop()
    idx.documentCount.set(ndocs)
    lens = []
    for d in range(ndocs):
        n = e.int('len%d' % d, 1, big)
        idx._docweight[d + 1] = n
        lens.append(n)
    idx._totaldoclen.set(sum(lens))
    fs = []
    for w in range(words):
        info = {}
        for d in range(ndocs):
            if d == 0 or e.flag('in%d.%d' % (w, d)):
                info[d + 1] = e.int('f%d.%d' % (w, d), 1, big)
        idx._wordinfo[w + 1] = info
        fs.append(info)
    for d in range(ndocs):
        e.assume(sum([i[d + 1] for i in fs if d + 1 in i]) <= lens[d])
    q = query(e, terms, words)
    bound_check(e, idx, q)


def query(e, terms, words):
    """terms: lists of word ids, up to 2 words each"""
    out = []
    for i in range(e.choice('terms', terms)):
        t = [e.choice('t%d' % i, tuple(range(1, words + 1)))]
        k = e.choice('u%d' % i, (0,) + tuple(range(1, words + 1)))
        if k:
            t.append(k)
        out.append(t)
    return out


def bound_check(e, idx, q):
    qw = idx.query_weight([list(t) for t in q])
    total = {}
    for t in q:
        for d, s in e.pairs(idx.search(list(t))):
            e.check(s > 0, 'positive scores')
            total[d] = total.get(d, 0) + s
    e.observe('weight', qw)
    for d in sorted(total):
        e.observe('score', total[d])
        e.check(total[d] <= qw * 1.000001, 'no score above the weight of the query')


def cosine_bound(e, ndocs, words, terms):
    idx = make(e, 'cosine')
    if not stored(e, idx):
        e.stop()
    idx.documentCount.set(ndocs)
    fs = []
    for d in range(ndocs):
        idx._docweight[d + 1] = 1.0
    for w in range(words):
        info = {}
        for d in range(ndocs):
            if d == 0 or e.flag('in%d.%d' % (w, d)):
                x = e.real('f%d.%d' % (w, d), 0, 1)
                e.assume(x > 0)
                info[d + 1] = x
        idx._wordinfo[w + 1] = info
        fs.append(info)
    for d in range(ndocs):
        e.assume(sum([i[d + 1] * i[d + 1] for i in fs if d + 1 in i]) <= 1)
    q = query(e, terms, words)
    bound_check(e, idx, q)


def documents_bound(e, kind, ndocs, maxlen, terms, wmax=127):
    """the same with indexed documents"""
    idx = make(e, kind)
    for i in range(ndocs):
        idx.index_doc(10 + i, [e.int('w%d.%d' % (i, j), 1, wmax) for j in range(e.choice('n%d' % i, maxlen))])
    q = [[e.int('q%d.%d' % (i, j), 1, wmax) for j in range(n)] for i, n in enumerate(terms)]
    bound_check(e, idx, q)


WORDS = ('xx', 'yy', 'zz')


def apply_range(e, kind, ndocs, queries, maxlen, words=WORDS):
    """TextIndex.apply: between 0 and 1, same documents, same order"""
    L = e.mod('zope.index.text.lexicon')
    lex = L.Lexicon(L.Splitter(), L.CaseNormalizer(), L.StopWordRemover())
    idx = make(e, kind, lex=lex)
    ti = e.mod('zope.index.text.textindex').TextIndex(lex, idx)
    for i in range(ndocs):
        n = e.choice('n%d' % i, maxlen)
        ti.index_doc(i + 1, ' '.join([e.choice('w%d.%d' % (i, j), words) for j in range(n)]))
    q = e.choice('q', queries)
    parser = e.mod('zope.index.text.queryparser').QueryParser(lex)
    tree = parser.parseQuery(q)
    raw = tree.executeQuery(idx)
    raw = [] if raw is None else [(d, s) for d, s in raw.items()]
    res = ti.apply(q)
    r = dict([(d, s) for d, s in res.items()])
    e.observe('result', sorted(r.items()))
    e.check(len(r) == len(raw), 'same documents')
    if raw:
        e.cover('found')
        qw = idx.query_weight(tree.terms())
        for d, s in raw:
            e.check(d in r, 'same documents')
            e.check(s > 0 and s <= qw * 1.000001, 'score within the weight')
            e.check(r[d] > 0 and r[d] <= 1.000001, 'result between 0 and 1')
            for d2, s2 in raw:
                e.check(not (s > s2 * 1.00001 and r[d] < r[d2]), 'same order')
