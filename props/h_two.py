"""Two indexes (lexicons, parsers, ...) side by side: neither sees what happens to the other."""
from props import h_field, h_full, h_ids, h_keyword, h_lexicon, h_query, h_text, h_topic


def side(e, i):
    """the first step changes the first one, the second step the second one"""
    if i < 2:
        return i
    return 1 if e.flag('second%d' % i) else 0


def apart(e, two, bits, ask, put):
    """every index keeps to its own family"""
    if bits[0] == bits[1]:
        return
    for idx, b in zip(two, bits):
        fam = e.family(b)
        e.check(isinstance(ask(idx), h_ids.family_types(fam)), 'a collection of the family of the index')
        x = e.int('wide%d' % b, -2 ** 63, 2 ** 63 - 1)
        e.assume(x > 2 ** 31)
        if b == 32:
            e.must_raise(h_ids.ERRORS, 'an id outside the range is rejected', put, idx, x)
        else:
            put(idx, x)
            e.check(e.anyeq(x, e.ids(ask(idx))), 'an id of the range')


def covers(e, models):
    if models[0] and models[1]:
        e.cover('both')
        for d in models[0]:
            if d in models[1]:
                e.cover('same docid')


# ---------------------------------------------------------------- field

def field(e, n, kind='int', bits=(32, 32), ops=('index', 'unindex', 'clear'), reverses=(False, True)):
    two = [h_field.make(e, b) for b in bits]
    models = [{}, {}]
    low = min(bits)
    for i in range(n):
        k = side(e, i)
        idx, model = two[k], models[k]
        op = e.choice('op%d' % i, ops) if i > 1 else 'index'
        e.cover(op)
        if op == 'clear':
            idx.clear()
            model.clear()
            continue
        d = h_field.docid(e, 'd%d' % i, low)
        if op == 'index':
            v = h_field.value(e, 'v%d' % i, kind)
            idx.index_doc(d, v)
            model[d] = v
        else:
            idx.unindex_doc(d)
            model.pop(d, None)
    covers(e, models)
    lo = h_field.value(e, 'lo', kind)
    every = []
    for model in models:
        every += [d for d in model if not (d in every)]
    reverse = e.choice('reverse', reverses)
    for idx, model in zip(two, models):
        h_field.check_stats(e, idx, model)
        e.check_ids(idx.apply((None, None)), list(model), 'all documents of the index')
        e.check_ids(idx.apply((lo, None)), [d for d, v in model.items() if not h_field.lt(v, lo)],
                    'ids in the range')
        got = list(idx.sort(list(every), reverse))
        e.check(len(got) == len(model), 'number of sorted ids')
        for d in got:
            e.check(d in model, 'sorted ids of the index')
        for a, b in zip(got, got[1:]):
            e.check(not (h_field.lt(model[a], model[b]) if reverse else h_field.lt(model[b], model[a])), 'order')
    apart(e, two, bits, lambda idx: idx.apply((None, None)), lambda idx, d: idx.index_doc(d, lo))


# -------------------------------------------------------------- keyword

def keyword(e, n, sizes=(1, 2), kind='case1', norms=('none', 'lower'), bits=(32, 32), thresholds=(None, None),
            ops=('index', 'unindex', 'clear'), qsizes=(1,)):
    two = [h_keyword.make(e, norms[k], bits[k]) for k in (0, 1)]
    models = [{}, {}]
    for k in (0, 1):
        if thresholds[k] is not None:
            two[k].tree_threshold = thresholds[k]
    for i in range(n):
        k = side(e, i)
        h_keyword.step(e, two[k], models[k], i, ops, sizes, kind, h_keyword.FOLD[norms[k]], min(bits),
                       'index' if i < 2 else None)
    covers(e, models)
    for k in (0, 1):
        h_keyword.check_stats(e, two[k], models[k])
        for d in list(models[0]) + list(models[1]):
            e.check(two[k].has_doc(d) == (d in models[k]), 'has_doc')
        h_keyword.check_search(e, two[k], models[k], qsizes, kind, h_keyword.FOLD[norms[k]], 'q%d' % k, ('search',))
    apart(e, two, bits, lambda idx: idx.search(['x', 'y'], 'or'), lambda idx, d: idx.index_doc(d, ['x']))


# ---------------------------------------------------------------- topic

EXPRS, truth = h_topic.EXPRS, h_topic.truth


def topic(e, n, ops=('index', 'unindex', 'express', 'clearFilters', 'delFilter'), bits=(32, 32)):
    """filters of one name"""
    T = e.mod('zope.index.topic.index').TopicIndex
    P = e.mod('zope.index.topic.filter').PythonFilteredSet
    two = [T(family=e.family(b)) for b in bits]
    exprs = [EXPRS[0], EXPRS[1]]
    filters = [P('f', exprs[k], family=e.family(bits[k])) for k in (0, 1)]
    models = [[], []]
    for k in (0, 1):
        two[k].addFilter(filters[k])
    gone = [False, False]
    for i in range(n):
        k = side(e, i)
        op = e.choice('op%d' % i, ops) if i > 1 else 'index'
        e.cover(op)
        if op == 'express':
            exprs[k] = e.choice('expr%d' % i, EXPRS)
            filters[k].setExpression(exprs[k])
            e.check(filters[k].getExpression() == exprs[k], 'getExpression')
        elif op == 'clearFilters':
            two[k].clearFilters()
            models[k] = [] if not gone[k] else models[k]
        elif op == 'delFilter':
            if gone[k]:
                e.stop()
            two[k].delFilter('f')
            gone[k] = True
        else:
            d = e.int('d%d' % i, -2 ** 31, 2 ** 31 - 1)
            g = e.int('g%d' % i)
            if op == 'index':
                two[k].index_doc(d, h_topic.Doc(g=g))
            else:
                two[k].unindex_doc(d)
            if gone[k]:
                continue
            models[k] = h_topic.drop(models[k], d)
            if op == 'index' and truth(exprs[k], g):
                models[k] = models[k] + [d]
    if models[0] and models[1]:
        e.cover('both')
    for k in (0, 1):
        e.check(filters[k].getId() == 'f', 'getId')
        e.check(filters[k].getExpression() == exprs[k], 'getExpression')
        e.check_ids(two[k].search('f'), [] if gone[k] else models[k], 'search result')
        e.check_ids(filters[k].getIds(), models[k], 'ids of the filter')
    if not any(gone):
        for k in (0, 1):
            filters[k].setExpression('True')
        apart(e, two, bits, lambda idx: idx.search(['f']), lambda idx, d: idx.index_doc(d, None))


# ----------------------------------------------------------------- text

def words(e, kinds, n, sizes=(1, 2), wmax=127, bits=(32, 32), ops=('index', 'unindex', 'clear'), ids=None, shared=True,
          preload=0):
    """text indexes with a common lexicon"""
    lex = h_text.Lex()
    two = [h_text.make(e, kinds[k], bits[k], lex if shared else h_text.Lex()) for k in (0, 1)]
    models = [{}, {}]
    for k in range(preload):
        two[0].index_doc(1000 + k, [1])
        models[0][1000 + k] = [1]
    seen = []
    for i in range(n):
        k = side(e, i)
        idx, model = two[k], models[k]
        op = e.choice('op%d' % i, ops) if i > 1 else 'index'
        e.cover(op)
        if op == 'clear':
            idx.clear()
            model.clear()
            continue
        d = e.choice('d%d' % i, ids) if ids else e.int('d%d' % i, 1, 2 ** 31 - 1)
        if op == 'unindex':
            idx.unindex_doc(d)
            model.pop(d, None)
            continue
        ws = [e.int('w%d.%d' % (i, j), 1, wmax) for j in range(e.choice('n%d' % i, sizes))]
        idx.index_doc(d, list(ws))
        model[d] = ws
        seen += ws
    covers(e, models)
    for k in (0, 1):
        docs = list(models[k].items())
        e.check(two[k].documentCount() == len(docs), 'documentCount')
        cur = h_text.distinct([w for d, ws in docs for w in ws])
        e.check(two[k].wordCount() == len(cur), 'wordCount')
        for d in list(models[0]) + list(models[1]):
            e.check(two[k].has_doc(d) == (d in models[k]), 'has_doc')
        for d, ws in docs:
            e.check_list(two[k].get_words(d), ws, 'words of a document')
        for w in h_text.distinct(seen):
            h_text.check_formula(e, kinds[k], two[k], docs, [w])
    apart(e, two, bits, lambda idx: idx.search([120]), lambda idx, d: idx.index_doc(d, [120]))


def full(e, n, texts, queries, setups, pipe='stop', shared=False, ids=(1, 2), ops=('index', 'unindex', 'clear')):
    """two text indexes, each with its lexicon, or with one"""
    one = h_full.make(e, setups[0], pipe)
    if shared:
        T = e.mod('zope.index.text.textindex')
        cls = e.mod('zope.index.text.cosineindex').CosineIndex if setups[1] == 'cosine' else \
            e.mod('zope.index.text.okapiindex').OkapiIndex
        two = [one, T.TextIndex(one.lexicon, cls(one.lexicon))]
    else:
        two = [one, h_full.make(e, setups[1], pipe)]
    models = [{}, {}]
    for i in range(n):
        k = side(e, i)
        # the first step of either one indexes a document
        h_full.step(e, two[k], models[k], i, ops if i > 1 else ('index',), ids, lambda i: e.choice('t%d' % i, texts))
    covers(e, models)
    q = e.choice('q', queries)
    for k in (0, 1):
        h_full.counters(e, two[k], models[k], pipe)
        h_full.ask(e, two[k], q, models[k], pipe, ' %d' % k)


# -------------------------------------------------------------- lexicon

def lexicon(e, n, nwords=(1, 2), lens=(1,), alpha='ab'):
    L = h_lexicon.lexmod(e)
    two = [L.Lexicon(L.Splitter()), L.Lexicon(L.Splitter())]
    known = [[], []]
    for i in range(n):
        k = side(e, i)
        ws = h_lexicon.texts(e, 't%d' % i, nwords, lens, alpha)
        got = two[k].sourceToWordIds(list(ws))
        e.check(len(got) == len(ws), 'one id per word')
        for w, wid in zip(ws, got):
            old = h_lexicon.wid_of(known[k], w)
            if old is None:
                known[k].append((w, wid))
            else:
                e.check(wid == old, 'the id of a known word')
    for k in (0, 1):
        h_lexicon.check_lexicon(e, two[k], known[k])
        for w, wid in known[1 - k]:
            here = h_lexicon.wid_of(known[k], w)
            if here is None:
                e.cover('known to one')
                e.check(two[k].get_wid(w) == 0, 'a word only the other lexicon knows')
                e.check_list(two[k].termToWordIds(w), [0], 'a word only the other lexicon knows')
                e.check_list(two[k].globToWordIds(w), [], 'a word only the other lexicon knows')
            else:
                e.cover('known to both')


def parsers(e, choices, n):
    """two parsers with one lexicon"""
    Q, P, L = h_query.parts(e)
    lex = h_query.lexicon(e)
    two = [Q.QueryParser(lex), Q.QueryParser(lex)]
    ignored = [None, None]
    for i in range(n):
        k = side(e, i)
        q = e.choice('q%d' % i, choices)
        ref = h_query.Ref(h_query.tokenize(q))
        r = None
        try:
            r = ref.start()
        except h_query.Bad:
            pass
        try:
            tree = two[k].parseQuery(q)
            e.check(r is not None, 'a query outside the grammar is rejected')
        except P.ParseError:
            e.check(r is None, 'a valid query is accepted')
            ignored[k] = 'any'
            continue
        ignored[k] = list(ref.ignored)
    for k in (0, 1):
        if ignored[k] != 'any' and ignored[k] is not None:
            e.check_list(two[k].getIgnored(), ignored[k], 'ignored terms of the parser')
            e.cover('ignored')


# ------------------------------------------------------------ algorithms

def nbest(e, n, caps=(1, 2)):
    N = e.mod('zope.index.nbest').NBest
    cap = [e.choice('cap%d' % k, caps) for k in (0, 1)]
    two = [N(cap[0]), N(cap[1])]
    added = [[], []]
    for i in range(n):
        k = side(e, i)
        s = e.int('s%d' % i)
        two[k].add(i, s)
        added[k].append((i, s))
    for k in (0, 1):
        best = two[k].getbest()
        m = min(cap[k], len(added[k]))
        e.check(len(best) == m, 'number of items')
        e.check(len(two[k]) == m, 'len')
        e.check(two[k].capacity() == cap[k], 'capacity')
        for it, s in best:
            e.check(any([it == a and s == b for a, b in added[k]]), 'an added pair')
        for (x, s), (y, t) in zip(best, best[1:]):
            e.check(s >= t, 'order')
        for a, b in added[k]:
            if not any([it == a for it, s in best]):
                e.cover('left out')
                e.check(all([s >= b for it, s in best]), 'nothing better is left out')


def rice(e, n, ms=(0, 1, 3)):
    R = e.mod('zope.index.text.ricecode').RiceCode
    m = [e.choice('m%d' % k, ms) for k in (0, 1)]
    two = [R(m[0]), R(m[1])]
    lists = [[], []]
    for i in range(n):
        k = side(e, i)
        v = e.choice('v%d' % i, (1, 2, 4, 9))
        two[k].append(v)
        lists[k].append(v)
    for k in (0, 1):
        e.check_list(two[k].tolist(), lists[k], 'the appended values')
        e.check(len(two[k]) == len(lists[k]), 'len')
    e.cover('both')


def oka(e, n, bits=32, how=('ok', 'fails')):
    """a call of okascore.score after another one with other numbers"""
    from props import h_oka
    first = h_oka.make_pairs(e, n, 1000, 10 ** 6)
    lens = [e.int('l%d' % i, 1, 10 ** 6) for i in range(n)]
    d2len = {}
    for (d, f), x in zip(first, lens):
        d2len[d] = x
    k = e.oka()
    i0, m0 = e.real('idf0', 0.001, 30), e.real('mean0', 0.001, 10 ** 6)
    if e.choice('first', how) == 'ok':
        k.call({}, list(first), d2len, i0, m0)
        e.cover('ok')
    else:
        k.call({}, list(first) + [(999, 1)], d2len, i0, m0)
        e.cover('fails')
    i1, m1 = e.real('idf1', 0.001, 30), e.real('mean1', 0.001, 10 ** 6)
    second = [(d, e.int('g%d' % i, 1, 10 ** 6)) for i, (d, f) in enumerate(reversed(first))]
    again = dict(d2len)
    if e.flag('other lengths'):
        for i, (d, f) in enumerate(second):
            again[d] = e.int('k%d' % i, 1, 10 ** 6)
    result = {}
    r, x, refs = k.call(result, list(second), again, i1, m1)
    e.check(x is None and r is None, 'an ordinary call succeeds')
    e.check(refs == '', 'references: ' + refs)
    e.check(len(result) == n, 'exactly the listed documents have a score')
    for d, f in second:
        e.check(d in result, 'every listed document has a score')
        e.close(result[d], h_oka.want(e, f, again[d], i1, m1), 'score as the formula')
