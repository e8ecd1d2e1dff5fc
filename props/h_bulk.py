"""Larger collections: most of the content is concrete, a few values and the
operations on it are symbolic."""
from props import h_algo, h_field, h_full, h_keyword, h_lexicon, h_query, h_text, h_topic, h_tree


# ------------------------------------------------------------------- field

def field(e, n, m, steps, queries=True, sorts=True, bits=32, limits=(None, 1, 'fifth', 'most', 'all', 'more'), lo=3, hi=6):
    """n documents with m different values, then symbolic operations"""
    idx = h_field.make(e, bits)
    model = {}
    ids = [i * 7 - 300 for i in range(n)]
    for i, d in enumerate(ids):
        model[d] = (i * 13) % m * 2
        idx.index_doc(d, model[d])
    places = (ids[0], ids[n // 2], ids[-1], 5000)
    for i in range(steps):
        d = e.choice('d%d' % i, places)
        if e.choice('op%d' % i, ('index', 'unindex')) == 'index':
            v = e.int('v%d' % i, lo, hi)
            idx.index_doc(d, v)
            model[d] = v
            e.cover('index')
        else:
            idx.unindex_doc(d)
            model.pop(d, None)
            e.cover('unindex')
    h_field.check_stats(e, idx, model)
    for d in places:
        r = idx.apply((None, None))
        e.check((d in e.ids(r)) == (d in model), 'ids after the history')
    if queries:
        a = e.int('lo', lo - 1, hi)
        b = e.int('hi', lo, hi)
        e.check_ids(idx.apply((a, b)), [d for d, v in model.items() if a <= v and v <= b], 'ids in the range')
        e.check_ids(idx.apply((a, None)), [d for d, v in model.items() if a <= v], 'ids above')
        e.check_ids(idx.apply((None, b)), [d for d, v in model.items() if v <= b], 'ids below')
    if sorts:
        docs = list(model)
        k = e.choice('ids', ('all', 'unindexed too', 'few', 'mostly unindexed'))
        q = list(places) + {'all': ids, 'unindexed too': ids[::2] + [-1000 - i for i in range(n)], 'few': ids[3:n:9],
                            'mostly unindexed': ids[:5] + [9000 + i for i in range(3 * n)]}[k]
        q = sorted(set(q))
        known = len([d for d in q if d in model])
        lim = e.choice('size', limits)
        lim = {None: None, 1: 1, 'fifth': max(1, len(q) // 5), 'most': max(1, known - 1), 'all': max(1, known),
               'more': known + 5}[lim]
        h_field.check_sort(e, idx, model, q, (lim,), (False, True))


# ----------------------------------------------------------------- keyword

def keywords_of(i):
    """the keywords of a document: a common one, and some rare ones"""
    ws = ['common', 'mod5-%d' % (i % 5)]
    for p in (2, 3, 7, 11):
        if i % p == 0:
            ws.append('div%d' % p)
    if i % 10 == 3:
        ws += ['x%d' % j for j in range(20)]
    return ws


KQ = (('common',), ('common', 'div2'), ('div2', 'div3'), ('div7', 'div11'), ('x3', 'x4', 'x5'), ('zz', 'common'),
      ('div2', 'div3', 'div7', 'common', 'mod5-0'), ('x19', 'zz', 'div11'))


def keyword(e, n, steps, thresholds=(None,), ops=('index', 'index other', 'replace', 'unindex'), norm='none'):
    fold = h_keyword.FOLD[norm]
    idx = h_keyword.make(e, norm)
    t = e.choice('threshold', thresholds)
    if t is not None:
        idx.tree_threshold = t
    up = (lambda w: w.upper()) if norm == 'lower' else (lambda w: w)
    model = {}
    ids = [i * 5 - 20 for i in range(e.choice('n', n))]
    for i, d in enumerate(ids):
        ws = keywords_of(i)
        idx.index_doc(d, ws)
        model[d] = h_keyword.uniq(fold(ws))
    places = (ids[0], ids[3], ids[-1], 4000)
    for i in range(steps):
        op = e.choice('op%d' % i, ops)
        e.cover(op)
        if op == 'optimize':
            idx.optimize()
            continue
        if op == 'threshold':
            idx.tree_threshold = e.choice('t%d' % i, (1, 13, 10 ** 6))
            continue
        d = e.choice('d%d' % i, places)
        if op == 'unindex':
            idx.unindex_doc(d)
            model.pop(d, None)
            continue
        if op == 'index':
            # one word less, one word more
            ws = [up(w) for w in model.get(d, keywords_of(21))]
            ws = ws[1:] + ['div' + e.str('s%d' % i, 1, '234567')]
        elif op == 'replace':
            # nothing in common
            ws = ['n%d' % j for j in range(e.choice('new%d' % i, (1, 3, 7)))]
        else:
            ws = ['x%d' % j for j in range(15, 25)] + ['common']
        idx.index_doc(d, ws)
        model[d] = h_keyword.uniq(fold(ws))
    h_keyword.check_stats(e, idx, model)
    for d in places:
        e.check(bool(idx.has_doc(d)) == (d in model), 'has_doc')
    for q in KQ:
        for op in ('and', 'or'):
            e.check_ids(idx.search([up(w) for w in q], op), h_keyword.matching(model, list(q), op), 'search result')
    for w in h_keyword.uniq([w for ws in model.values() for w in ws])[:40]:
        e.check_ids(idx.search([w]), h_keyword.matching(model, [w], 'and'), 'documents with a keyword')


# ------------------------------------------------------------------- topic

def topic(e, n, steps):
    idx = h_topic.make(e)
    model = {}
    for name in h_topic.NAMES:
        idx.addFilter(h_topic.fset(e, name))
        model[name] = []
    ids = [i * 3 - 50 for i in range(n)]

    def put(d, f, g):
        idx.index_doc(d, h_topic.Doc(f=f, g=g))
        for name, v in (('f', f != 0), ('g', g > 3), ('h', f == 0)):
            model[name] = [x for x in model[name] if x != d] + ([d] if v else [])
    for i, d in enumerate(ids):
        put(d, i % 3, i % 9)
    places = (ids[0], ids[n // 2], ids[-1], 9999)
    for i in range(steps):
        op = e.choice('op%d' % i, ('index', 'unindex', 'clear'))
        e.cover(op)
        if op == 'clear':
            name = e.choice('name%d' % i, h_topic.NAMES)
            idx.delFilter(name)
            idx.addFilter(h_topic.fset(e, name))
            model[name] = []
            continue
        d = e.choice('d%d' % i, places)
        if op == 'index':
            put(d, e.int('f%d' % i, -1, 1), e.int('g%d' % i))
        else:
            idx.unindex_doc(d)
            for name in model:
                model[name] = [x for x in model[name] if x != d]
    for q in (('f',), ('g',), ('h',), ('f', 'g'), ('g', 'h'), ('f', 'h'), ('f', 'g', 'h'), ('z', 'g'), ('z',)):
        for op in ('and', 'or'):
            e.check_ids(idx.search(list(q), op), h_topic.wanted(model, q, op), 'documents of the filters')


# -------------------------------------------------------------------- text

def words_of(i, n, shift=0):
    """n words, some of them often, with ids of one to four characters"""
    return [WIDS[(i * 7 + j * j + j * 3 + shift) % len(WIDS)] if j % 4 else 1 for j in range(n)]


WIDS = tuple(range(2, 26)) + (127, 128, 129, 255, 0x3fff, 0x4000, 0x4001, 0x1fffff, 0x200000, 2 ** 28 - 1)


def text(e, kind, ndocs, length, steps, cutoff=None, near=(3, 6), distinct=False):
    """ndocs documents of many words; then operations, with one symbolic word each"""
    idx = h_text.make(e, kind)
    if cutoff is not None:
        idx.DICT_CUTOFF = cutoff
    docs = []
    nd = e.choice('ndocs', ndocs)
    for i in range(nd):
        ws = words_of(i, length + i % 3) if not distinct else [i * length // 2 + j + 1 for j in range(length)]
        idx.index_doc(100 + i, list(ws))
        docs.append((100 + i, ws))
    places = (100, 100 + nd // 2, 100 + nd - 1, 7)
    touched = []
    for i, ops in enumerate(steps):
        op = e.choice('op%d' % i, ops)
        d = e.choice('d%d' % i, places)
        e.cover(op)
        old = [ws for x, ws in docs if x == d]
        docs = [(x, ws) for x, ws in docs if x != d]
        if op == 'unindex':
            idx.unindex_doc(d)
            if old:
                touched += old[0]
            continue
        w = e.int('w%d' % i, near[0], near[1])
        ws = list(old[0]) if old else words_of(90, length)
        if op == 'one word':
            touched.append(ws[len(ws) // 2])
            ws[len(ws) // 2] = w
        elif op == 'more':
            ws = ws + [w, w, 128]
        elif op == 'less':
            touched += ws[length // 3:]
            ws = ws[:length // 3] + [w]
        elif op == 'swap':
            ws = [w] + ws[::-1]
        elif op == 'others':
            # other words, each once
            ws = [5000 + j for j in range(length)] + [w]
            touched += [5000 + length // 2, 5000 + length - 1]
        elif op == 'rotate':
            # the same words in another order
            ws = ws[2:] + ws[:2]
        n = idx.index_doc(d, list(ws))
        e.check(n == len(ws), 'index_doc returns the number of words')
        touched.append(w)
        if op == 'rotate':
            touched += ws[-4:-1]
        docs.append((d, ws))
    fresh = h_text.make(e, kind)
    for d, ws in docs:
        fresh.index_doc(d, list(ws))
    some = h_text.distinct(touched)
    some = some[:3] + some[-6:] if len(some) > 9 else some
    h_text.compare_with(e, idx, fresh, docs, h_text.distinct(some + [1, 2 ** 28 - 1]), True)


def phrase(e, kind, n, phrases, near=(3, 6), reindex=False):
    """documents of n words, phrases cut out of them or changed in one word"""
    idx = h_text.make(e, kind)
    docs = []
    for i in range(2):
        ws = words_of(i, n)
        if i == 0:
            ws[n // 2] = e.int('w', near[0], near[1])
        docs.append((9 + i, ws))
    if reindex:
        idx.index_doc(9, docs[0][1][::-1])
    for d, ws in docs:
        idx.index_doc(d, list(ws))
    k = e.choice('length', phrases)
    at = e.choice('at', ('begin', 'middle', 'end'))
    src = docs[0][1] if e.pick('doc', 2) == 0 else docs[1][1]
    a = {'begin': 0, 'middle': n // 2 - k // 2, 'end': n - k}[at]
    p = src[a:a + k]
    change = e.choice('change', ('none', 'one', 'reverse', 'drop', 'twice'))
    if change == 'one':
        p[e.choice('which', (0, k - 1))] = e.int('p', near[0], near[1])
    elif change == 'reverse':
        p = p[::-1]
    elif change == 'drop':
        p = p[:k // 2] + p[k // 2 + 1:]
    elif change == 'twice':
        p = p[:k // 2] + [p[k // 2]] + p[k // 2:]
    res = dict([(d, s) for d, s in e.pairs(idx.search_phrase(list(p)))])
    single = [dict([(d, s) for d, s in e.pairs(idx.search([w]))]) for w in p]
    for d, ws in docs:
        hit = any([all([x == y for x, y in zip(ws[j:], p)]) for j in range(len(ws) - len(p) + 1)])
        e.check(hit == (d in res), 'exactly the documents with the words in sequence')
        if hit:
            e.cover('hit')
            e.close(res[d], sum([x[d] for x in single]), 'score of a phrase')
        else:
            e.cover('miss')


# --------------------------------------------------------------- algorithms

def nbest(e, cap, n, pops):
    N = e.mod('zope.index.nbest').NBest
    nb = N(cap)
    where = e.choice('at', (0, cap // 2, n - 1))
    pat = e.choice('pattern', (1, 7, n - 1))
    pairs = []
    for i in range(n):
        if i == where:
            pairs.append(('item%d' % i, e.int('s', 2 * n - 80, 2 * n - 74)))
        pairs.append(('doc%d' % i, (i * pat) % n * 2 // 3 * 3))
    if e.flag('many'):
        nb.addmany(pairs[:5])
        nb.addmany(iter(pairs[5:]))
    else:
        for it, s in pairs:
            nb.add(it, s)
    score = dict(pairs)
    left = [it for it, s in pairs]
    for i in range(pops):
        best = nb.getbest()
        e.check(len(best) == min(cap, len(left)) and len(nb) == len(best), 'number of kept items')
        names = [it for it, s in best]
        e.check(len(set(names)) == len(names), 'each item once')
        for it, s in best:
            e.check(s == score[it], 'an item keeps its score')
        for (a, s), (b, t) in zip(best, best[1:]):
            e.check(s >= t, 'best first')
        for it in left:
            if it not in names:
                e.check(score[it] <= best[-1][1], 'nothing better is left out')
        it, s = nb.pop_smallest()
        e.check(it in names and s == score[it], 'a kept item is popped, with its score')
        e.check(s == best[-1][1], 'the smallest is popped')
        left = [x for x in names if x != it]


def setops(e, op, ns, size):
    """many mappings of many entries; one symbolic key and value in each"""
    so = e.mod('zope.index.text.setops')
    family = e.family()
    n = e.choice('n', ns)
    L, spec = [], []
    for i in range(n):
        items = [(k * 3, (k * (i + 2)) % 11 + 1) for k in range(size) if (k + i) % (i + 3) or k < 4]
        if i < 2:
            k = e.int('k%d' % i, 5, 8)
            v = e.int('v%d' % i, 1, 9)
            items = [(a, x) for a, x in items if not (a == k)] + [(k, v)]
        m = (family.IF.BTree, family.IF.Bucket)[i % 2]()
        for k, v in items:
            m[k] = v
        w = (1, 2, 0.5, 3)[(i + n) % 4]
        L.append((m, w))
        spec.append((items, w))
    r = (so.mass_weightedUnion if op == 'union' else so.mass_weightedIntersection)(L, family)
    want = []
    for items, w in spec:
        for k, v in items:
            if any([k == q for q, x in want]):
                continue
            hits = [w2 * v2 for items2, w2 in spec for k2, v2 in items2 if k2 == k]
            if op == 'union' or len(hits) == n:
                want.append((k, sum(hits)))
    got = e.pairs(r)
    e.check(len(got) == len(want), 'number of keys')
    for k, t in want:
        hit = [v for q, v in got if q == k]
        e.check(len(hit) == 1, 'key present')
        e.close(hit[0], t, 'weighted sum')
    for (m, w), (items, w2) in zip(L, spec):
        e.check(len(m) == len(items), 'input unchanged')
        for k, v in items:
            e.check(m[k] == v, 'input unchanged')


def widcode(e, n):
    w = e.mod('zope.index.text.widcode')
    wids = [(WIDS[(i * 5) % len(WIDS)] * (i + 1)) % (2 ** 28) for i in range(n)]
    a = e.choice('at', (0, n // 2, n - 1) if n < 100 else (0, n - 1))
    wids[a] = e.int('x', 0, 2 ** 28 - 1)
    wids[a - 1] = e.int('y', 0, 2 ** 28 - 1)
    code = w.encode(wids)
    back = w.decode(code)
    e.check(len(back) == n, 'number of decoded ids')
    for x, y in zip(wids, back):
        e.check(x == y, 'decode(encode(wids)) == wids')
    e.check(''.join([w.encode([x]) for x in wids]) == code, 'concatenation of the single encodings')


def deltas(e, n, pats, lo, hi):
    rc = e.mod('zope.index.text.ricecode')
    pat = e.choice('pattern', pats)
    a = e.choice('at', (1, n // 2, n - 1))
    x = e.int('x0', -5, 5) if e.flag('small') else 10 ** 9
    l = [x]
    for i in range(1, n):
        l.append(l[-1] + (e.int('delta', lo, hi) if i == a else pat[i % len(pat)]))
    start, enc = rc.encode_deltas(list(l))
    back = rc.decode_deltas(start, enc)
    e.check(len(back) == n, 'number of elements')
    for x, y in zip(l, back):
        e.check(x == y, 'round trip')


# ----------------------------------------------------------------- lexicon

def lexicon(e, size, n):
    """a lexicon of many words; a text of n words, two letters symbolic"""
    L = e.mod('zope.index.text.lexicon')
    lex = L.Lexicon(L.Splitter(), L.CaseNormalizer())
    known = {}
    base = ['w%d' % i for i in range(size)]
    for w, i in zip(base, lex.sourceToWordIds(' '.join(base))):
        known[w] = i
    e.check(len(set(known.values())) == size and 0 not in known.values(), 'different ids, never 0')
    x, y = e.str('x', 1, 'wW1'), e.str('y', 1, '0179')
    text = ['w%d' % (i * 17) for i in range(n)] + [x + y, 'new' + y] + ['W%d' % (size - 1 - i) for i in range(n)]
    src = e.choice('order', (1, -1))
    text = text[::src]
    before = lex.wordCount()
    q = lex.termToWordIds(' '.join(text))
    e.check(lex.wordCount() == before, 'no word is created')
    ids = lex.sourceToWordIds(' '.join(text))
    e.check(len(ids) == len(text) and len(q) == len(text), 'one id for each word')
    for w, i, j in zip(text, ids, q):
        w = w.lower()
        e.check(lex.get_word(i) == w, 'the word of an id')
        e.check(lex.get_wid(w) == i, 'the id of a word')
        e.check(i != 0, 'never 0')
        e.check(j == 0 or j == i, '0 or the id')
    allw = h_keyword.uniq(base + [w.lower() for w in text])
    e.check(lex.wordCount() == len(allw), 'wordCount')
    for w in base:
        e.check(lex.get_wid(w) == known[w] and lex.get_word(known[w]) == w, 'ids never change')
    again = lex.termToWordIds(' '.join(text))
    e.check_list(again, ids, 'the same ids for a query')
    e.check(len(set(lex.words())) == len(allw) and len(set(lex.wids())) == len(allw), 'words and ids')


def globs(e, size, patterns, alpha):
    """a lexicon of many words"""
    L = e.mod('zope.index.text.lexicon')
    lex = L.Lexicon(L.Splitter(), L.CaseNormalizer())
    words = []
    for i in range(size):
        words.append('ab'[i % 2] + 'abc'[i % 3] * (i % 4) + str(i // 6) + 'xy'[i // 5 % 2] * (i % 3))
    words = h_keyword.uniq(words)
    lex.sourceToWordIds(' '.join(words))
    p = e.choice('pattern', patterns)
    if '#' in p:
        p = p.replace('#', e.str('c', 1, alpha))
    got = lex.globToWordIds(p)
    want = [w for w in words if match(p, w)]
    e.check(len(got) == len(want), 'number of words')
    for w in want:
        e.check(lex.get_wid(w) in got, 'a matching word')
    e.check(len(set(got)) == len(got), 'each id once')
    if len(want) > 1:
        e.cover('several')


def match(p, w):
    if not p:
        return not w
    if p[0] == '*':
        return any([match(p[1:], w[k:]) for k in range(len(w) + 1)])
    return bool(w) and (p[0] == '?' or p[0] == w[0]) and match(p[1:], w[1:])


# ------------------------------------------------------------------ queries

QUERIES = ('a1 AND b2 OR c3 NOT (d4 OR e5 -f6) "g7 h8" %s i9',
           '(a1 b2 c3 OR d4 AND (e5 OR f6 OR (g7 NOT h8))) %s',
           'a1 OR b2 OR c3 OR d4 AND e5 %s f6* OR "the" OR g7-h8-i9',
           'a1 -b2 -c3 -"d4 e5" the of %s AND NOT f6 NOT g7 NOT (h8)',
           '((((a1 %s)))) OR ((b2)) AND NOT ((c3 OR ((d4))))')


def queries(e, tokens, n):
    q = e.choice('query', QUERIES)
    h_query.compare(e, q % ' '.join([e.choice('t%d' % i, tokens) for i in range(n)]))


SHAPES = (
    ('and', 0, 1, 2, 3, 4, 5, ('not', 6), ('not', 7)),
    ('or', 0, 1, 2, 3, 4, 5, 6, 7),
    ('and', ('or', 0, 1, 2, 3), ('not', ('or', 4, 5, 6, 7)), ('not', 0)),
    ('or', ('and', 0, 1, 2, 3), ('and', 4, 5, ('not', 6), ('not', 7)), 2, ('and', 3, ('not', 1), ('not', 2), ('not', 4))),
    ('and', ('or', ('and', 0, 1), ('and', 2, 3)), ('or', 4, 5, ('and', 6, 7)), ('not', ('and', 0, 2, 4))),
)


def trees(e, shapes, ndocs):
    """8 leaves, ndocs documents, and one symbolic one"""
    pt = e.mod('zope.index.text.parsetree')
    family = e.family()
    s = e.choice('shape', shapes)
    names = 'abcdefgh'
    results, table = {}, []
    n = max(h_tree.leaves(s)) + 1
    x = e.int('x', 8, 11)
    for i in range(n):
        t = {}
        for d in range(ndocs):
            if (d * (i + 3) + d // 3) % 5 < 2 + i % 3:
                t[d * 10] = d % 7 + i + 1
        if e.flag('in%d' % i):
            t = dict([(d, v) for d, v in t.items() if not (d == x)])
            t[x] = i + 20
        table.append(t)
        m = (family.IF.BTree, family.IF.Bucket)[i % 2]()
        for d, v in t.items():
            m[d] = v
        results[names[i]] = m
    node = h_tree.build(pt, s, names, ['atom'] * 8)
    got = e.pairs(node.executeQuery(h_tree.Index(family, results)))
    count = 0
    for d in [k * 10 for k in range(ndocs) if not (k * 10 == x)] + [x]:
        v = h_tree.value(s, d, table)
        here = [y for k, y in got if k == d]
        if v is None:
            e.check(len(here) == 0, 'selected although the expression is false')
        else:
            count += 1
            e.check(len(here) == 1, 'missing')
            e.close(here[0], v, 'score is the sum of the scores of the positive operands')
    e.check(len(got) == count, 'no other document')


# ---------------------------------------------------------------- pipeline

TEXT = ('The quick-brown fox_%s jumps over 12 lazy dogs, and %sits on the ma%st; THE END%s',
        '%s caf\xe9 na\xefve \u0437\u0438\u043c\u0430 x1y2 it\'s%sa be%s to-be or.not',
        'a* b?c %sword* of the *%s wor?d%s')
MARKUP = ('<html><BODY class="x%s">The first<br/>word&nbsp;and%sthe &lt;second&gt; one</p></body%s>',
          'if a<b then %s<c d &amp; e%s&eacute;t&%s; f > g <a href=\'x\'>link</a>',
          '&#169; &copy;%s <!-- a comment%s --> text <b>bold</b%s> &;&amp')


def long_texts(e, shapes, alpha, how, single=False, lead=0):
    """whole texts with symbolic characters in them"""
    L = e.mod('zope.index.text.lexicon')
    shape = e.choice('shape', shapes)
    cs = []
    for i in range(shape.count('%s')):
        c = e.str('c%d' % i, 1, alpha)
        cs.append(c + 'q' if e.flag('more%d' % i) else c)
    parts = shape.split('%s')
    t = ' '.join(['no%dx' % i for i in range(lead)]) + ' ' * (lead > 0) + parts[0]
    for c, p in zip(cs, parts[1:]):
        t = t + c + p
    if how == 'pipeline' or how == 'html pipeline':
        html = how == 'html pipeline'
        sp = e.mod('zope.index.text.htmlsplitter').HTMLWordSplitter() if html else L.Splitter()
        lex = L.Lexicon(sp, L.CaseNormalizer(), L.StopWordAndSingleCharRemover() if single else L.StopWordRemover())
        low = h_lexicon.remove_markup(t.lower()) if html else t
        want = []
        for w in h_lexicon.split(low):
            w = w.lower()
            if w not in h_lexicon.STOP and not (single and len(w) == 1 and ord(w) < 255):
                want.append(w)
        e.check_list(lex.parseTerms(t), want, 'terms')
        ids = lex.sourceToWordIds(t)
        e.check(len(ids) == len(want), 'number of ids')
        for k, w in zip(ids, want):
            e.check(lex.get_word(k) == w, 'word of an id')
        e.cover('words')
        return
    g = e.flag('glob')
    if how == 'html':
        s = e.mod('zope.index.text.htmlsplitter').HTMLWordSplitter()
        clean = h_lexicon.remove_markup(t.lower())
    else:
        s, clean = L.Splitter(), t
    got = (s.processGlob if g else s.process)([t, 'and more', t])
    want = h_lexicon.split(clean, '*?' if g else '')
    e.check_list(got, want + ['and', 'more'] + want, 'words')
    e.cover('words')


# -------------------------------------------------------------------- wide
#
# Many of one thing at once (values in a range, keywords of a document, words
# of a query, filters, operands), to be right at any size.

def field_wide(e, ns):
    """n different values, each with a document, one with any value near the end of a range"""
    idx = h_field.make(e)
    n = e.choice('n', ns)
    vals = {}
    for i in range(n):
        vals[i * 3] = i * 2
        idx.index_doc(i * 3, i * 2)
    d = e.choice('d', (0, n // 2 * 3))
    if e.flag('gone'):
        idx.unindex_doc(d)
        del vals[d]
    else:
        vals[d] = e.int('v', 2 * n - 5, 2 * n)
        idx.index_doc(d, vals[d])
    h_field.check_stats(e, idx, vals)
    a, b = 1, 2 * n - 3
    e.check_ids(idx.apply((None, None)), list(vals), 'all ids')
    e.check_ids(idx.apply((a, b)), [d for d, v in vals.items() if a <= v and v <= b], 'ids in the range')
    e.check_ids(idx.apply((b, None)), [d for d, v in vals.items() if b <= v], 'ids above')
    e.check_ids(idx.apply((None, a)), [d for d, v in vals.items() if v <= a], 'ids below')
    for m in (64, 100, 128, 256, 500, 512):
        for k in (m, m + 1):
            # k values, unless one of them is gone
            if k < n - 3:
                e.check_ids(idx.apply((0, 2 * k - 2)), [d for d, v in vals.items() if v <= 2 * k - 2], 'ids of %d values' % k)


def keyword_wide(e, ns, norm='none'):
    """documents with n keywords, and queries of n keywords"""
    fold = h_keyword.FOLD[norm]
    up = (lambda w: w.upper()) if norm == 'lower' else (lambda w: w)
    idx = h_keyword.make(e, norm)
    n = e.choice('n', ns)
    c = e.str('c', 1, 'lmn')
    ws = ['k%03d' % i for i in range(n)]
    model = {}

    def put(d, l):
        idx.index_doc(d, [up(w) for w in l])
        model[d] = h_keyword.uniq(fold(l))
    put(1, ws + [c])
    put(2, ws[::-1] + ['m'])
    put(3, [c, 'm'] + ws[n // 2:])
    put(4, ['zz'])
    op = e.choice('op', ('unindex', 'less', 'more', 'other', 'fewer'))
    d = e.choice('d', (1, 2, 3))
    if op == 'unindex':
        idx.unindex_doc(d)
        del model[d]
    elif op == 'less':
        put(d, ws[:-1])
    elif op == 'more':
        put(d, ws + [c, 'l', 'zz'])
    elif op == 'other':
        put(d, ['z%03d' % i for i in range(n)])
    else:
        put(d, [ws[-1]])
    h_keyword.check_stats(e, idx, model)
    for q in (ws, ws + [c], ws[-2:] + ['m'], ws + ['nothing'], ['zz'] + ws, ['z%03d' % i for i in range(n)], ws + ws):
        for o in ('and', 'or'):
            e.check_ids(idx.search([up(w) for w in q], o), h_keyword.matching(model, list(q), o), 'search result')
    for w in (ws[0], ws[n // 2], ws[-1], 'z%03d' % (n - 1)):
        e.check_ids(idx.search([up(w)]), h_keyword.matching(model, [w], 'and'), 'documents with a keyword')
    for d in (1, 2, 3, 4):
        if d in model:
            idx.unindex_doc(d)
            e.check(not idx.has_doc(d), 'gone')
    h_keyword.check_stats(e, idx, {})
    for w in (ws[0], ws[-1], 'zz', 'z%03d' % (n - 1)):
        e.check_ids(idx.search([up(w)]), [], 'nothing left')


def topic_wide(e, ns):
    """n filters; queries naming all of them"""
    idx = h_topic.make(e)
    n = e.choice('n', ns)
    P = e.mod('zope.index.topic.filter').PythonFilteredSet
    names = ['n%d' % i for i in range(n)]
    for i, name in enumerate(names):
        idx.addFilter(P(name, 'context.f >= %d' % i))
    model = dict([(name, []) for name in names])

    def put(d, f):
        idx.index_doc(d, h_topic.Doc(f=f))
        for i, name in enumerate(names):
            model[name] = [x for x in model[name] if x != d] + ([d] if f >= i else [])
    for d, f in ((1, n), (2, n // 2), (3, n - 2), (4, 0), (5, -1)):
        put(d, f)
    d = e.choice('d', (1, 2, 6))
    if e.flag('index'):
        put(d, e.int('f', n - 3, n))
    else:
        idx.unindex_doc(d)
        for name in names:
            model[name] = [x for x in model[name] if x != d]
    for q in (names, names[::-1], names[1:], names[:-1], names[-1:], names + ['nothing'], ['nothing'] + names[::2]):
        for op in ('and', 'or'):
            e.check_ids(idx.search(list(q), op), h_topic.wanted(model, q, op), 'documents of the filters')


def setops_wide(e, op, ns):
    """n mappings of few entries, in which the last ones differ"""
    so = e.mod('zope.index.text.setops')
    family = e.family()
    n = e.choice('n', ns)
    at = e.choice('at', (0, n // 2, n - 1))
    k, v = e.int('k', 3, 5), e.int('v', 1, 9)
    L, spec = [], []
    for i in range(n):
        items = [(1, 1), (2, i % 5 + 1)]
        if i != n - 2:
            items.append((6, 2))
        if i == at:
            items.append((k, v))
        else:
            items.append((4, 3))
        m = (family.IF.BTree, family.IF.Bucket)[i % 2]()
        for a, x in items:
            m[a] = x
        L.append((m, i % 3 + 1))
        spec.append((items, i % 3 + 1))
    want = []
    for d in [1, 2, 4, 6] + ([] if k == 4 else [k]):
        hits = [w * x for items, w in spec for a, x in items if a == d]
        if hits and (op == 'union' or len(hits) == n):
            want.append((d, sum(hits)))
    r = (so.mass_weightedUnion if op == 'union' else so.mass_weightedIntersection)(L, family)
    got = e.pairs(r)
    e.check(len(got) == len(want), 'number of keys')
    for d, t in want:
        hit = [x for q, x in got if q == d]
        e.check(len(hit) == 1, 'key present')
        e.close(hit[0], t, 'weighted sum')


def trees_wide(e, ns):
    """AND and OR of n operands, with n further ones after NOT"""
    pt = e.mod('zope.index.text.parsetree')
    family = e.family()
    n = e.choice('n', ns)
    kind = e.choice('kind', ('and', 'or', 'and not'))
    ops = list(range(n))
    s = {'and': ('and',) + tuple(ops), 'or': ('or',) + tuple(ops),
         'and not': ('and', 0) + tuple([('not', i) for i in ops[1:]])}[kind]
    names = ['t%d' % i for i in range(n)]
    at = e.choice('at', (1, n // 2, n - 1))
    x = e.int('x', 3, 5)
    results, table = {}, []
    for i in range(n):
        t = {1: i % 4 + 1, 2: 3, 6: 1} if kind != 'and not' or i == 0 else {6: 1}
        if kind == 'and not' and i == 0:
            t[4] = 2
            t[3] = 1
        if i == n - 1 and 2 in t:
            del t[2]
        if i == at:
            t = dict([(d, v) for d, v in t.items() if not (d == x)])
            t[x] = i + 20
        table.append(t)
        m = (family.IF.BTree, family.IF.Bucket)[i % 2]()
        for d, v in t.items():
            m[d] = v
        results[names[i]] = m
    node = h_tree.build(pt, s, names, ['atom'] * n)
    got = e.pairs(node.executeQuery(h_tree.Index(family, results)))
    count = 0
    for d in [k for k in (1, 2, 3, 4, 5, 6) if not (k == x)] + [x]:
        v = h_tree.value(s, d, table)
        here = [y for k, y in got if k == d]
        if v is None:
            e.check(len(here) == 0, 'selected although the expression is false')
        else:
            count += 1
            e.check(len(here) == 1, 'missing')
            e.close(here[0], v, 'score is the sum of the scores of the positive operands')
    e.check(len(got) == count, 'no other document')


def queries_wide(e, ns):
    """queries of n terms"""
    n = e.choice('n', ns)
    kind = e.choice('kind', ('and', 'or', 'juxtaposed', 'phrase', 'not', 'parens', 'mixed'))
    ws = ['w%dw' % i for i in range(n)]
    at = e.choice('at', (0, n // 2, n - 1))
    ws[at] = e.choice('token', ('the', '"x1 y2"', 'g*', 'x-y', '(u1)', 'x1'))
    if kind == 'phrase':
        ws[at] = e.choice('in', ('the', 'x1', 'g*'))
        q = '"%s"' % ' '.join(ws)
    elif kind == 'parens':
        q = '(' * n + ' '.join(ws) + ')' * n
    elif kind == 'not':
        q = 'a1 ' + ' '.join(['NOT ' + w for w in ws])
    elif kind == 'mixed':
        q = ' OR '.join([' AND '.join(ws[i:i + 5]) for i in range(0, n, 5)])
    else:
        q = {'and': ' AND ', 'or': ' OR ', 'juxtaposed': ' '}[kind].join(ws)
    h_query.compare(e, q)


def search_wide(e, kind, ns):
    """a query of n words: the sum of the scores of its words"""
    idx = h_text.make(e, kind)
    n = e.choice('n', ns)
    w = e.int('w', 3, 5)
    docs = {7: list(range(1, n + 1)), 8: [w, 1, w], 9: list(range(n, 0, -2)), 10: [n], 11: [n + 5]}
    for d, ws in docs.items():
        idx.index_doc(d, list(ws))
    q = list(range(1, n + 1))
    how = e.choice('how', ('once', 'reverse', 'one twice'))
    if how == 'reverse':
        q = q[::-1]
    elif how == 'one twice':
        q = q + [n]
    got = dict(e.pairs(idx.search(list(q))))
    single = dict([(x, dict(e.pairs(idx.search([x])))) for x in range(1, n + 1)])
    for d, ws in docs.items():
        here = [single[x][d] for x in q if d in single[x]]
        e.check((d in got) == (len(here) > 0), 'the documents with a word')
        if here:
            e.close(got[d], sum(here), 'the sum of the scores')


def oka_wide(e, ns, form):
    """many pairs for the C loop, one with any numbers"""
    n = e.choice('n', ns)
    at = e.choice('at', (0, n // 2, n - 1))
    f, dl = e.int('f', 1, 10 ** 6), e.int('l', 0, 10 ** 6)
    idf, mean = e.real('idf', 0.001, 30), e.real('mean', 0.001, 10 ** 6)
    fam = e.family()
    pairs = [(i * 5 - 700, f if i == at else i % 9 + 1) for i in range(n)]
    lens = dict([(d, dl if i == at else i % 50) for i, (d, x) in enumerate(pairs)])
    lens[-5000] = 3
    d2len = fam.II.BTree()
    for d, x in lens.items():
        d2len[d] = x
    items = pairs
    if form == 'items':
        t = fam.IF.BTree()
        for d, x in pairs:
            t[d] = x
        items = t.items()
    result = fam.IF.Bucket()
    r, x, refs = e.oka().call(result, items, d2len, idf, mean)
    e.check(x is None, 'an ordinary call succeeds')
    got = e.pairs(result)
    e.check(len(got) == n, 'number of scores')
    for d, x in got:
        e.check(d in lens and d != -5000, 'a listed document')
    some = [at, 0, n - 1, n // 2, n // 3, min(n - 1, 64), min(n - 1, 255), min(n - 1, 256)]
    got = dict(got)
    for i in h_text.distinct(some):
        d, x = pairs[i]
        e.close(got[d], x * 2.2 / (x + 1.2 * (0.25 + 0.75 * lens[d] / mean)) * idf, 'score')


def rice_wide(e, ms, n, big):
    """many values, some of them large, one symbolic"""
    rc = e.mod('zope.index.text.ricecode')
    m = e.choice('m', ms)
    q = e.choice('q', big)
    at = e.choice('at', (0, n // 2, n - 1))
    vals = [1 + (i * 7) % (2 ** m + 2) for i in range(n)]
    vals[n // 3] = 40 * 2 ** m + 1
    vals[at] = q * 2 ** m + e.int('r', 0, min(2 ** m - 1, 5)) + 1
    c = rc.encode(m, list(vals))
    e.check(len(c) == n, 'len')
    d = rc.RiceCode(m)
    for v in vals:
        d.append(v)
    e.check(list(d.tostring()) == list(c.tostring()), 'same bytes')
    for x in (c, e.pickled(c)):
        back = x.tolist() if x is c else None
        if back is None:
            e.check(list(x.tostring()) == list(c.tostring()), 'bytes of a pickled code')
            continue
        e.check(len(back) == n, 'number of elements')
        for a, b in zip(vals, back):
            e.check(a == b, 'round trip')


def apply_wide(e, ns, kinds=('okapi', 'cosine')):
    """queries of many terms through TextIndex.apply; long documents"""
    ti = h_full.make(e, e.choice('kind', kinds), 'fold')
    n = e.choice('n', ns)
    c = e.str('c', 1, 'ab7')
    ws = ['W%dx' % i for i in range(n)]
    texts = {1: ' '.join(ws), 2: ' '.join(ws[::-1]), 3: ' '.join(ws[:-1] + ['wx' + c]), 4: 'W0x ' * n + c, 5: 'w%dx wxa' % (n - 1)}
    for d, t in texts.items():
        ti.index_doc(d, t)
    if e.flag('again'):
        ti.index_doc(1, ' '.join(ws[1:] + [c]))
        texts[1] = ' '.join(ws[1:] + [c])
    model = dict([(d, t.lower().split()) for d, t in texts.items()])
    low = [w.lower() for w in ws]
    hit = {}
    for name, q, want in (
            ('and', ' '.join(ws), [d for d, t in model.items() if all([w in t for w in low])]),
            ('or', ' OR '.join(ws), [d for d, t in model.items() if any([w in t for w in low])]),
            ('twice', ' '.join(ws[-1:] * n), [d for d, t in model.items() if low[-1] in t]),
            ('phrase', '"%s"' % ' '.join(ws), [d for d, t in model.items() if any([
                all([x == y for x, y in zip(t[i:], low)]) for i in range(len(t) - n + 1)])]),
            ('not', 'w*x NOT ' + ' NOT '.join(ws[1:]), [d for d, t in model.items() if any([
                h_lexicon.matches('w*x', w) for w in t]) and not any([w in t for w in low[1:]])]),
            ('glob', 'w*', [d for d, t in model.items() if any([w[0] == 'w' for w in t])]),
            ('last', 'wxa', [d for d, t in model.items() if 'wxa' in t])):
        r = ti.apply(q)
        e.check_ids(r, want, name + ': the documents that satisfy the query')
        if name not in ('glob', 'not'):
            for d, s in e.pairs(r):
                e.check(s > 0, 'a score above 0')
                e.check(s <= 1.00001, 'a score of at most 1')
    e.check(ti.documentCount() == 5, 'documentCount')
    e.check(ti.wordCount() == len(h_keyword.uniq([w for t in model.values() for w in t])), 'wordCount')
