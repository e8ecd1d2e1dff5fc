"""TextIndex as a whole: which documents a query finds."""
from props import h_query, h_lexicon

STOP = h_query.STOP
# name: (folds case, drops stop words, drops single characters)
PIPES = {'plain': (False, False, False), 'fold': (True, False, False), 'stop': (True, True, False),
         'single': (True, True, True)}


def clean(ws, pipe):
    fold, stop, single = PIPES[pipe]
    if fold:
        ws = [w.lower() for w in ws]
    if stop:
        ws = [w for w in ws if w not in STOP]
    if single:
        ws = [w for w in ws if len(w) > 1]
    return ws


def doc_words(text, pipe):
    if text is None:
        return []
    return clean(h_lexicon.split(text), pipe)


class Query(h_query.Ref):
    """the reference parser with the words of a pipeline"""
    pipe = 'stop'

    def term(self):
        if self.k[self.i] != 'ATOM':
            return h_query.Ref.term(self)
        pos, neg = [], []
        while self.k[self.i] == 'ATOM':
            tok = self.t[self.i]
            self.i += 1
            ws = clean(h_lexicon.split(tok, '*?'), self.pipe)
            if not ws:
                self.ignored.append(tok)
            elif tok[0] == '-':
                neg.append(('leaf', ws))
            else:
                pos.append(('leaf', ws))
        if not pos:
            if neg:
                raise h_query.Bad('no positive word')
            return None
        return ('and', pos, neg)


def has(words, leaf):
    """does the document with these words satisfy the leaf?"""
    if len(leaf) == 1:
        p = leaf[0]
        if '*' in p or '?' in p:
            return any([h_lexicon.matches(p, w) for w in words])
        return any([w == p for w in words])
    n = len(leaf)
    return any([all([words[i + j] == leaf[j] for j in range(n)]) for i in range(len(words) - n + 1)])


def holds(r, words):
    if r[0] == 'leaf':
        return has(words, r[1])
    if r[0] == 'or':
        return any([holds(x, words) for x in r[1]])
    return all([holds(x, words) for x in r[1]]) and not any([holds(x, words) for x in r[2]])


def wild_phrase(r):
    if r[0] == 'leaf':
        return len(r[1]) > 1 and any(['*' in w or '?' in w for w in r[1]])
    return any([wild_phrase(x) for part in r[1:] for x in part])


def make(e, setup, pipe):
    """the ways of building a text index"""
    T, L = e.mod('zope.index.text.textindex'), e.mod('zope.index.text.lexicon')
    if setup == 'default':
        return T.TextIndex()
    els = [L.Splitter()]
    fold, stop, single = PIPES[pipe]
    if fold:
        els.append(L.CaseNormalizer())
    if single:
        els.append(L.StopWordAndSingleCharRemover())
    elif stop:
        els.append(L.StopWordRemover())
    lex = L.Lexicon(*els)
    if setup == 'lexicon':
        return T.TextIndex(lex)
    O, C = e.mod('zope.index.text.okapiindex'), e.mod('zope.index.text.cosineindex')
    if setup == 'okapi':
        return T.TextIndex(lex, O.OkapiIndex(lex))
    if setup == 'cosine':
        return T.TextIndex(lex, C.CosineIndex(lex))
    if setup == 'index':
        return T.TextIndex(index=O.OkapiIndex(lex))
    if setup == 'cosine index':
        return T.TextIndex(index=C.CosineIndex(lex))
    if setup == 'keywords':
        return T.TextIndex(index=C.CosineIndex(lex), lexicon=lex)


def ask(e, ti, q, model, pipe, tag='', bounded=True):
    """the answer to a query"""
    P = e.mod('zope.index.text.parsetree')
    ref = Query(h_query.tokenize(q))
    ref.pipe = pipe
    r = None
    try:
        r = ref.start()
    except h_query.Bad:
        pass
    if r is not None and wild_phrase(r):
        e.stop()
    got = None
    try:
        got = ti.apply(q)
    except P.ParseError:
        e.check(r is None, 'a valid query is answered')
        e.cover('rejected')
        return
    e.check(r is not None, 'ParseError for a query outside the grammar or with stop words only')
    got = e.pairs(got)
    e.observe('found' + tag, ('sorted', [d for d, s in got]))
    n = 0
    for d, text in model.items():
        here = [s for k, s in got if k == d]
        if holds(r, doc_words(text, pipe)):
            n += 1
            e.cover('found')
            e.check(len(here) == 1, 'a document that satisfies the query is found')
            e.check(here[0] > 0, 'with a positive score')
        else:
            e.cover('not found')
            e.check(len(here) == 0, 'a document that does not satisfy the query is not found')
    e.check(len(got) == n, 'only documents of the index are found')


def counters(e, ti, model, pipe):
    e.check(ti.documentCount() == len(model), 'documentCount')
    ws = []
    for text in model.values():
        for w in doc_words(text, pipe):
            if not any([w == x for x in ws]):
                ws.append(w)
    e.check(ti.wordCount() == len(ws), 'wordCount')


def step(e, ti, model, i, ops, ids, text, ask_first=()):
    op = e.choice('op%d' % i, ops) if i else 'index'
    if op == 'clear':
        ti.clear()
        model.clear()
        e.cover('clear')
        return
    if op == 'ask':
        P = e.mod('zope.index.text.parsetree')
        try:
            ti.apply(e.choice('earlier%d' % i, ask_first))
        except P.ParseError:
            pass
        return
    d = e.choice('d%d' % i, ids)
    if op == 'unindex':
        ti.unindex_doc(d)
        if d in model:
            del model[d]
            e.cover('unindex')
        return
    t = text(i)
    if d in model:
        e.cover('reindex')
    ti.index_doc(d, t)
    model[d] = t


def history(e, n, texts, queries, setups=('okapi', 'cosine'), pipes=('stop',), ops=('index', 'unindex', 'clear'),
            ids=(1, 2), earlier=(), preload=()):
    """texts and queries out of lists"""
    pipe = e.choice('pipe', pipes)
    setup = e.choice('setup', setups)
    ti = make(e, setup, pipe)
    model = {}
    for i, t in enumerate(preload):
        ti.index_doc(100 + i, t)
        model[100 + i] = t
    for i in range(n):
        step(e, ti, model, i, ops, ids, lambda i: e.choice('t%d' % i, texts), earlier)
    counters(e, ti, model, pipe)
    ask(e, ti, e.choice('q', queries), model, pipe)


def tokens(e, n, texts, k, toks, setups=('okapi',), pipes=('stop',)):
    """any query of k tokens"""
    pipe = e.choice('pipe', pipes)
    ti = make(e, e.choice('setup', setups), pipe)
    model = {}
    for i in range(n):
        step(e, ti, model, i, ('index',), (i + 1,), lambda i: e.choice('t%d' % i, texts))
    ask(e, ti, ' '.join([e.choice('q%d' % i, toks) for i in range(k)]), model, pipe)


def chars(e, lens, alpha, queries, n=1, setups=('okapi',), pipes=('stop',), ops=('index',), ids=(1,), fixed=()):
    """texts of any characters"""
    pipe = e.choice('pipe', pipes)
    ti = make(e, e.choice('setup', setups), pipe)
    model = {}
    for i, t in enumerate(fixed):
        ti.index_doc(100 + i, t)
        model[100 + i] = t

    def text(i):
        return e.str('t%d' % i, e.choice('len%d' % i, lens), alpha)
    for i in range(n):
        step(e, ti, model, i, ops, ids, text)
    counters(e, ti, model, pipe)
    ask(e, ti, e.choice('q', queries), model, pipe)


def query_chars(e, lens, alpha, texts, setups=('okapi',), pipes=('stop',)):
    """queries of any characters"""
    pipe = e.choice('pipe', pipes)
    ti = make(e, e.choice('setup', setups), pipe)
    model = {}
    for i, t in enumerate(texts):
        ti.index_doc(i + 1, t)
        model[i + 1] = t
    ask(e, ti, e.str('q', e.choice('len', lens), alpha), model, pipe)


def two(e, texts, first, second, pipes=('plain', 'stop'), setups=('okapi', 'cosine')):
    """a query, a change of the documents or none, another query"""
    pipe = e.choice('pipe', pipes)
    ti = make(e, e.choice('setup', setups), pipe)
    model = {}
    for i, t in enumerate(texts):
        ti.index_doc(i + 1, t)
        model[i + 1] = t
    ask(e, ti, e.choice('q1', first), model, pipe, '1')
    change = e.choice('change', ('none', 'unindex', 'reindex', 'new'))
    d = e.choice('d', (1, len(texts)))
    if change == 'unindex':
        ti.unindex_doc(d)
        del model[d]
    elif change != 'none':
        if change == 'new':
            d = 50
        model[d] = e.choice('t', texts)
        ti.index_doc(d, model[d])
    e.cover(change)
    ask(e, ti, e.choice('q2', second), model, pipe, '2')
    counters(e, ti, model, pipe)
