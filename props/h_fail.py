"""Calls that raise leave the index as it was."""
from props import h_field, h_keyword, h_text, h_topic

ERRORS = Exception


class Boom(Exception):
    pass


class Bang:
    """as a pipeline element: fails for texts with a certain word"""

    def process(self, lst):
        lst = list(lst)
        if 'boom' in lst:
            raise Boom()
        return lst

    processGlob = process


class FailingLex(h_text.Lex):
    def sourceToWordIds(self, text):
        if text == 'boom':
            raise Boom()
        return list(text)


# every maker returns (index, put(docid, content), fail(docid, how), hows, counts(contents), answers())

def field(e, bits, kind='int'):
    idx = h_field.make(e, bits)
    vals = {'int': (5, 7, 9), 'str': ('ab', 'b', 'c'), 'tuple': ((1, 'a'), (1, 'b'), (2, 'a'))}[kind]
    odd = {'int': 'x', 'str': 3, 'tuple': (1, 3)}[kind]

    def fail(d, how):
        if how == 'value':
            return idx.index_doc(d, odd)
        return idx.index_doc(d, vals[how])

    def answers(model):
        for c in range(3):
            e.check_ids(idx.apply((vals[c], vals[c])), [d for d, x in model if x == c], 'documents with a value')
        e.check_ids(idx.apply((None, None)), [d for d, x in model], 'all documents')
        s = list(idx.sort(idx.family.IF.Set([d for d, x in model])))
        e.check(len(s) == len(model), 'sorted documents')
        e.check(idx.wordCount() == len({x for d, x in model}), 'wordCount')
    return idx, lambda d, c: idx.index_doc(d, vals[c]), fail, ('value',), answers


def keyword(e, bits, norm='none'):
    if norm == 'boom':
        kw = e.mod('zope.index.keyword.index')

        class Sub(kw.KeywordIndex):
            def normalize(self, seq):
                if 'boom' in seq:
                    raise Boom()
                return seq
        idx = Sub() if bits == 32 else Sub(family=e.family(bits))
    else:
        idx = h_keyword.make(e, norm, bits)
    sets = (['a', 'b'], ['b', 'c'], ['c', 'd', 'e'])

    def fail(d, how):
        if how == 'string':
            return idx.index_doc(d, 'abc')
        if how == 'type':
            return idx.index_doc(d, [3, 4])
        if how == 'mixed':
            return idx.index_doc(d, ['b', 'x', 3])
        if how == 'object':
            return idx.index_doc(d, [Boom()])
        if how == 'number':
            return idx.index_doc(d, 7)
        if how == 'normalize':
            return idx.index_doc(d, ['b', 'z', 'boom'])
        return idx.index_doc(d, sets[how])

    def answers(model):
        for w in 'abcdexz':
            e.check_ids(idx.search([w]), [d for d, x in model if w in sets[x]], 'documents with a keyword')
        e.check_ids(idx.search(['b', 'c'], 'or'), [d for d, x in model], 'documents with one of two keywords')
        e.check_ids(idx.search(['b', 'c']), [d for d, x in model if x == 1], 'documents with two keywords')
        e.check(idx.wordCount() == len({w for d, x in model for w in sets[x]}), 'wordCount')
        for d, x in model:
            e.check(idx.has_doc(d), 'has_doc')
    hows = {'none': ('string', 'type', 'mixed', 'object', 'number'), 'lower': ('string', 'type', 'mixed', 'number'),
            'boom': ('normalize', 'string')}[norm]
    return idx, lambda d, c: idx.index_doc(d, list(sets[c])), fail, hows, answers


def topic(e, bits):
    idx = h_topic.make(e, bits)
    P = e.mod('zope.index.topic.filter').PythonFilteredSet
    for n, x in (('a', 'context.c == 0'), ('b', 'context.c > 0'), ('c', 'True')):
        idx.addFilter(P(n, x) if bits == 32 else P(n, x, family=e.family(bits)))

    def put(d, c):
        idx.index_doc(d, h_topic.Doc(c=c))

    def answers(model):
        e.check_ids(idx.search('a'), [d for d, x in model if x == 0], 'documents of a filter')
        e.check_ids(idx.search('b'), [d for d, x in model if x > 0], 'documents of a filter')
        e.check_ids(idx.search('c'), [d for d, x in model], 'documents of a filter')
        e.check_ids(idx.search(['a', 'c']), [d for d, x in model if x == 0], 'documents of two filters')
    return idx, put, put, (), answers


def text(e, bits, kind, lex='stub', whole=False):
    texts = ('aa bb', 'bb bb cc', 'aa cc dd dd')
    if lex == 'stub':
        lexicon = FailingLex()
        ids = {'aa': 5, 'bb': 6, 'cc': 200, 'dd': 20000}
        docs = [[ids[w] for w in t.split()] for t in texts]
        new = [5, 300]
    else:
        L = e.mod('zope.index.text.lexicon')
        lexicon = L.Lexicon(L.Splitter(), L.CaseNormalizer(), Bang())
        ids = {w: w for w in ('aa', 'bb', 'cc', 'dd')}
        docs = texts
        new = 'aa zz'
    idx = h_text.make(e, kind, bits, lexicon)
    top = e.mod('zope.index.text.textindex').TextIndex(lexicon, idx) if whole else idx

    def fail(d, how):
        if how == 'lexicon':
            return top.index_doc(d, 'boom')
        if how == 'number':
            return top.index_doc(d, 7)
        if how == 'list':
            return top.index_doc(d, ['aa bb', 7])
        if how == 'late':
            return top.index_doc(d, 'aa zz boom')
        return top.index_doc(d, docs[how])

    def answers(model):
        fresh = h_text.make(e, kind, bits, lexicon)
        for d, x in model:
            fresh.index_doc(d, docs[x])
        for w in ids:
            r = idx.search([ids[w]] if lex == 'stub' else w)
            e.check_ids(r.keys(), [d for d, x in model if w in texts[x].split()], 'documents with a word')
            h_text.check_scores(e, r, fresh.search([ids[w]] if lex == 'stub' else w), 'search like a fresh index')
        r = idx.search(new)
        h_text.check_scores(e, r, fresh.search(new), 'search like a fresh index')
        e.check(idx.wordCount() == len({w for d, x in model for w in texts[x].split()}), 'wordCount')
        for d, x in model:
            e.check(idx.has_doc(d), 'has_doc')
            e.check_list(idx.get_words(d), fresh.get_words(d), 'words of a document')
        if whole:
            e.check_ids(top.apply('bb OR aa').keys(), [d for d, x in model], 'documents of a query')
    return (top, lambda d, c: top.index_doc(d, docs[c]), fail,
            ('lexicon', 'number') if lex == 'stub' else ('number', 'list', 'late'), answers)


MAKE = {'field': field, 'keyword': keyword, 'topic': topic, 'text': text}


def failing(e, index, bits, params, before, after=1, id_=True, dmax=None, preload=0):
    """documents, a call that fails, more calls"""
    idx, put, fail, hows, answers = MAKE[index](e, bits, **params)
    lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
    if dmax:
        lo, hi = 1, dmax
    model = []      # (docid, content)

    def at(name):
        if preload:
            return e.choice(name, (5000, 5000 + preload - 1, 9000))
        return e.int(name, lo, hi)

    def change(name):
        nonlocal model
        d = at('d' + name)
        c = e.pick('c' + name, 3)
        put(d, c)
        model = [(x, y) for x, y in model if not (x == d)] + [(d, c)]

    for i in range(preload):
        put(5000 + i, i % 3)
        model.append((5000 + i, i % 3))
    for i in range(e.choice('before', before)):
        change(str(i))
    how = e.choice('how', hows + (('id', 'unindex'),) if id_ and not hows else hows + (('id', 'unindex') if id_ else ()))
    if how == ('id', 'unindex'):
        how = e.choice('how2', how)
    raised = False
    if how in ('id', 'unindex'):
        x = e.int('x')
        e.assume(x > 2 ** (bits - 1) - 1 if e.flag('high') else x < -2 ** (bits - 1))
        try:
            if how == 'id':
                fail(x, e.pick('cx', 3))
            else:
                idx.unindex_doc(x)
        except ERRORS:
            raised = True
    else:
        d = at('x')
        if any([d == y for y, c in model]):
            e.cover('known')
        else:
            e.cover('new')
        try:
            fail(d, how)
        except ERRORS:
            raised = True
        if not raised:
            # nothing to compare with: the call is fine
            idx.unindex_doc(d)
            model = [(y, c) for y, c in model if not (y == d)]
    if raised:
        e.cover(how)
    answers(model)
    if hasattr(idx, 'documentCount'):
        e.check(idx.documentCount() == len(model), 'documentCount')
    for i in range(after):
        if e.flag('un%d' % i):
            d = at('u%d' % i)
            idx.unindex_doc(d)
            model = [(y, c) for y, c in model if not (y == d)]
        else:
            change('a%d' % i)
        answers(model)
        if hasattr(idx, 'documentCount'):
            e.check(idx.documentCount() == len(model), 'documentCount')


def lexicon(e, words, n):
    """a text that fails teaches the lexicon nothing"""
    L = e.mod('zope.index.text.lexicon')
    lex = L.Lexicon(L.Splitter(), Bang())
    known = {}
    for i in range(n):
        t = e.choice('t%d' % i, words)
        for w, k in zip(t.split(), lex.sourceToWordIds(t)):
            e.check(known.setdefault(w, k) == k, 'ids stay')
    bad = e.choice('bad', ('xx yy boom', 'boom xx', 7, ['xx', 7], ('aa', None)))
    try:
        lex.sourceToWordIds(bad)
        e.check(False, 'the text fails')
    except (Boom, TypeError, AttributeError):
        pass
    e.check(lex.wordCount() == len(known), 'wordCount')
    e.check(lex.get_wid('xx') == known.get('xx', 0) and lex.get_wid('yy') == known.get('yy', 0), 'no new words')
    for w in known:
        e.check(lex.get_wid(w) == known[w], 'ids stay')
        e.check(lex.get_word(known[w]) == w, 'words stay')
    a = lex.sourceToWordIds('xx aa yy')
    for w, k in zip(('xx', 'aa', 'yy'), a):
        e.check(known.setdefault(w, k) == k, 'ids stay')
    e.check(len(set(known.values())) == len(known), 'different ids')
    e.check(lex.wordCount() == len(known), 'wordCount')
