"""Indexes stored by versions without BTrees.Length counters."""
from props import h_text, h_query, h_lexicon


def downgrade(e, idx, kind, what):
    """the state an old version left behind"""
    if 'documents' in what:
        del idx.documentCount
    if 'words' in what:
        del idx.wordCount
    if 'total' in what and kind == 'okapi':
        idx._totaldoclen = idx._totaldoclen()


WHAT = (('documents', 'words', 'total'), ('documents', 'words'), ('total',), ('words', 'total'))


def text(e, kind, steps, wmax=127, preload=((1, (1, 2)), (2, (2,))), ids=None, bits=32, what=WHAT, cutoff=None, phrases=False):
    idx = h_text.make(e, kind, bits)
    if cutoff is not None:
        idx.DICT_CUTOFF = cutoff
    docs = []
    for d, ws in preload:
        idx.index_doc(d, list(ws))
        docs.append((d, list(ws)))
    missing = e.choice('missing', what)
    downgrade(e, idx, kind, missing)
    dc, wc = 'documents' not in missing, 'words' not in missing
    seen = [w for d, ws in docs for w in ws]
    hi = 2 ** (bits - 1) - 1
    for i, ops in enumerate(steps):
        op = e.choice('op%d' % i, ops)
        if op == 'c':
            idx.clear()
            docs = []
            dc = wc = True
            continue
        before = h_text.distinct([w for x, ws in docs for w in ws])
        d = e.choice('d%d' % i, ids) if ids else e.int('d%d' % i, -hi - 1, hi)
        known = any([d == x for x, ws in docs])
        rest = [(x, ws) for x, ws in docs if not (x == d)]
        if op == 'u':
            idx.unindex_doc(d)
            docs = rest
            dc = dc or known
            e.cover('unindex')
        else:
            ws = [e.int('w%d.%d' % (i, j), 1, wmax) for j in range(int(op))]
            e.check(idx.index_doc(d, list(ws)) == len(ws), 'index_doc returns the number of words')
            docs = rest + [(d, ws)]
            seen.extend(ws)
            if known:
                e.cover('reindex')
            else:
                dc = wc = True
                e.cover('new')
        now = h_text.distinct([w for x, ws in docs for w in ws])
        if not all([any([w == v for v in now]) for w in before]) or not all([any([w == v for v in before]) for w in now]):
            wc = True
    if dc:
        e.check(idx.documentCount() == len(docs), 'documentCount')
    if wc:
        cur = h_text.distinct([w for x, ws in docs for w in ws])
        e.check(idx.wordCount() == len(cur), 'wordCount')
    if dc and wc:
        e.cover('upgraded')
        fresh = h_text.make(e, kind, bits)
        for d, ws in docs:
            fresh.index_doc(d, list(ws))
        h_text.compare_with(e, idx, fresh, docs, h_text.distinct(seen), phrases)


def lexicon(e, n, lens, alpha, start=('aa', 'b')):
    """a lexicon without a counter"""
    L = h_lexicon.lexmod(e)
    lex = L.Lexicon(L.Splitter())
    known = []
    for w in start:
        known.append((w, lex.sourceToWordIds(w)[0]))
    del lex.wordCount
    e.check(lex.wordCount() == len(known), 'wordCount before the upgrade')
    for i in range(n):
        t = e.str('t%d' % i, e.choice('len%d' % i, lens), alpha)
        ws = h_lexicon.split(t)
        if e.flag('term%d' % i):
            got = lex.termToWordIds(t)
            for w, wid in zip(ws, got):
                old = h_lexicon.wid_of(known, w)
                e.check(wid == (0 if old is None else old), 'id of a query word')
        else:
            got = lex.sourceToWordIds(t)
            for w, wid in zip(ws, got):
                old = h_lexicon.wid_of(known, w)
                if old is None:
                    known.append((w, wid))
                    e.cover('new word')
                else:
                    e.check(old == wid, 'a known word keeps its id')
                    e.cover('known word')
        e.check(len(got) == len(ws), 'one id per word')
        h_lexicon.check_lexicon(e, lex, known)
    e.observe('ids', [wid for w, wid in known])


def full(e, kind, n, texts, queries, ids=(1, 2)):
    """an old TextIndex with its lexicon, stored and loaded again"""
    from props import h_full
    ti = h_full.make(e, kind, 'stop')
    model = {1: 'aa bb', 2: 'bb the cc'}
    for d, t in model.items():
        ti.index_doc(d, t)
    downgrade(e, ti.index, kind, ('documents', 'words', 'total'))
    if e.flag('old lexicon'):
        del ti.lexicon.wordCount
    s = e.session(ti)
    s.commit()
    ti = s.reload()
    model[3] = e.choice('t', texts)
    ti.index_doc(3, model[3])
    for i in range(n):
        h_full.step(e, ti, model, i + 1, ('index', 'unindex'), ids, lambda i: e.choice('t%d' % i, texts))
    s.commit()
    ti = s.reload()
    h_full.counters(e, ti, model, 'stop')
    h_full.ask(e, ti, e.choice('q', queries), model, 'stop')
    ws = h_text.distinct([w for t in texts + ('aa bb', 'bb the cc') for w in h_full.doc_words(t, 'stop')])
    for i, w in enumerate(ws):
        for v in ws[:i]:
            a, b = ti.lexicon.get_wid(w), ti.lexicon.get_wid(v)
            e.check(a != b or a == 0, 'different words have different ids')
    s.close()
