"""Two concurrent transactions on one index."""
from props import h_field, h_keyword, h_pure, h_text, h_topic


def equal(e, xs, ys):
    """two lists of (label, answer): a condition"""
    cs = []
    for (label, a), (l2, b) in zip(xs, ys):
        x, y = a[1], b[1]
        if a[0] != b[0]:
            return False
        if a[0] == 'none':
            continue
        if a[0] == 'value':
            cs.append(x == y)
            continue
        if len(x) != len(y):
            return False
        if a[0] == 'list':
            cs.extend(p == q for p, q in zip(x, y))
        elif a[0] == 'set':
            cs.extend(e.anyeq(p, y) for p in x)
        else:
            cs.extend(e.or_(*[e.and_(p == q, s == t) for q, t in y]) for p, s in x)
    return e.and_(*cs) if cs else True


def run(e, make, setup, one, two, answers):
    """the documents of `setup` are committed; then transactions `one` and
    `two` (lists of functions of the index) run concurrently and commit in
    this order"""
    def fresh(*parts):
        x = make()
        for p in parts:
            for f in p:
                f(x)
        return see(x)

    def see(x):
        return [(label, h_pure.plain(e, g())) for label, g in answers(x)]
    idx = make()
    for f in setup:
        f(idx)
    s = e.session(idx, True)
    a, b = s.fork()
    for f in one:
        f(a)
    for f in two:
        f(b)
    ok = s.join()
    e.observe('both', ok)
    root = s.reload()
    got = see(root)
    if ok:
        e.cover('merged')
        e.check(e.or_(equal(e, got, fresh(setup, one, two)), equal(e, got, fresh(setup, two, one))),
                'both committed: as one after the other')
    else:
        e.cover('conflict')
        e.check(equal(e, got, fresh(setup, one)), 'conflict: as after the first transaction')
        for f in two:
            f(root)
        e.check(equal(e, see(root), fresh(setup, one, two)), 'the second transaction again')
    for label, y in got:
        if y[0] in ('set', 'map', 'list'):
            e.observe(label, y[1] if y[0] == 'list' else ('sorted', y[1]))
        else:
            e.observe(label, y[1])
    s.close()


def apart(e, docs, same):
    """documents of one transaction are not those of the other one"""
    for x in docs[1]:
        for y in docs[2]:
            if not same:
                e.assume(x != y)


def parts(sizes):
    """(part, number): 0 is the committed state, 1 and 2 the transactions"""
    return [(p, i) for p in range(3) for i in range(sizes[p])]


def field(e, sizes, ops=('index', 'unindex'), kind='int', bits=32, ids=None, same=False, preload=0):
    steps, docs, vals = ([], [], []), ([], [], []), []
    for i in range(preload):
        steps[0].append(lambda x, i=i: x.index_doc(1000 + i, i % 3))
    for p, i in parts(sizes):
        n = '%d.%d' % (p, i)
        op = e.choice('op' + n, ops) if p else 'index'
        if op == 'clear':
            steps[p].append(lambda x: x.clear())
            e.cover('clear')
            continue
        d = h_field.docid(e, 'd' + n, bits) if ids is None else e.choice('d' + n, ids) if p else i + 1
        if p:
            docs[p].append(d)
        if op == 'index':
            v = h_field.value(e, 'v' + n, kind)
            vals.append(v)
            steps[p].append(lambda x, d=d, v=v: x.index_doc(d, v))
        else:
            steps[p].append(lambda x, d=d: x.unindex_doc(d))
    apart(e, docs, same)

    def answers(x):
        r = [('documentCount', x.documentCount), ('wordCount', x.wordCount),
             ('all documents', lambda: x.apply((None, None)))]
        for i, v in enumerate(vals):
            r.append(('value %d' % i, lambda v=v: x.apply((v, v))))
        r.append(('sort', lambda: len(list(x.sort(x.family.IF.Set(x.apply((None, None))))))))
        return r
    run(e, lambda: h_field.make(e, bits), *steps, answers)


def keyword(e, sizes, n, kind='ab', ops=('index', 'unindex'), threshold=None, bits=32, ids=None, norm='none', same=False,
            preload=0):
    def make():
        x = h_keyword.make(e, norm, bits)
        if threshold is not None:
            x.tree_threshold = threshold
        return x
    steps, docs, seen = ([], [], []), ([], [], []), []
    for i in range(preload):
        steps[0].append(lambda x, i=i: x.index_doc(100 + i, ['a']))
    if preload:
        seen.append('a')
    for p, i in parts(sizes):
        nm = '%d.%d' % (p, i)
        op = e.choice('op' + nm, ops if isinstance(ops, tuple) else ops[p]) if p else 'index'
        if op == 'clear':
            steps[p].append(lambda x: x.clear())
            e.cover('clear')
        elif op in ('optimize', 'optimize up'):
            def f(x, t=0 if op == 'optimize' else 10):
                x.tree_threshold = t
                x.optimize()
            steps[p].append(f)
            e.cover(op)
        else:
            d = h_keyword.docid(e, 'd' + nm, bits) if ids is None else e.choice('d' + nm, ids) if p else i + 1
            if p:
                docs[p].append(d)
            if op == 'index':
                ws = h_keyword.words(e, 'w' + nm, n, kind)
                seen.extend(ws)
                steps[p].append(lambda x, d=d, ws=ws: x.index_doc(d, list(ws)))
            else:
                steps[p].append(lambda x, d=d: x.unindex_doc(d))
    apart(e, docs, same)
    distinct = h_keyword.uniq(seen)

    def answers(x):
        r = [('documentCount', x.documentCount), ('wordCount', x.wordCount),
             ('all documents', lambda: x.search(list(distinct), 'or'))]
        for i, w in enumerate(distinct):
            r.append(('keyword %d' % i, lambda w=w: x.search([w])))
        for i, d in enumerate(docs[1] + docs[2]):
            r.append(('has_doc %d' % i, lambda d=d: x.has_doc(d)))
        return r
    run(e, make, *steps, answers)


def topic(e, sizes, ops=('index', 'unindex'), names=('f', 'g'), bits=32, ids=None):
    def make():
        x = h_topic.make(e, bits)
        for name in names:
            x.addFilter(h_topic.fset(e, name, bits))
        return x
    steps, docs = ([], [], []), ([], [], [])
    for p, i in parts(sizes):
        nm = '%d.%d' % (p, i)
        op = e.choice('op' + nm, ops) if p else 'index'
        if op == 'clearFilters':
            steps[p].append(lambda x: x.clearFilters())
            e.cover('clear')
            continue
        d = e.int('d' + nm, -2 ** (bits - 1), 2 ** (bits - 1) - 1) if ids is None else e.choice('d' + nm, ids) if p else i + 1
        if p:
            docs[p].append(d)
        if op == 'index':
            doc, truth = h_topic.make_doc(e, 10 * p + i)
            steps[p].append(lambda x, d=d, doc=doc: x.index_doc(d, doc))
        else:
            steps[p].append(lambda x, d=d: x.unindex_doc(d))
    apart(e, docs, False)

    def answers(x):
        r = [('filter ' + name, lambda name=name: x.search(name)) for name in names]
        r.append(('any', lambda: x.search(list(names), 'or')))
        return r
    run(e, make, *steps, answers)


def text(e, kind, sizes, words, ops=('index', 'unindex'), wmax=127, cutoff=None, ids=None, bits=32, preload=0, same=False):
    def make():
        x = h_text.make(e, kind, bits)
        if cutoff is not None:
            x.DICT_CUTOFF = cutoff
        return x
    steps, docs, seen = ([], [], []), ([], [], []), []
    for i in range(preload):
        steps[0].append(lambda x, i=i: x.index_doc(1000 + i, [1]))
    if preload:
        seen.append(1)
    hi = 2 ** (bits - 1) - 1
    for p, i in parts(sizes):
        nm = '%d.%d' % (p, i)
        op = e.choice('op' + nm, ops) if p else 'index'
        if op == 'clear':
            steps[p].append(lambda x: x.clear())
            e.cover('clear')
            continue
        d = e.int('d' + nm, -hi - 1, hi) if ids is None else e.choice('d' + nm, ids) if p else i + 1
        if p:
            docs[p].append(d)
        if op == 'unindex':
            steps[p].append(lambda x, d=d: x.unindex_doc(d))
            continue
        ws = [e.int('w%s.%d' % (nm, j), 1, wmax) for j in range(e.choice('n' + nm, words[p]))]
        seen.extend(ws)
        steps[p].append(lambda x, d=d, ws=ws: x.index_doc(d, list(ws)))
    apart(e, docs, same)
    wids = h_text.distinct(seen)

    def answers(x):
        r = [('documentCount', x.documentCount), ('wordCount', x.wordCount)]
        for i, w in enumerate(wids):
            r.append(('word %d' % i, lambda w=w: x.search([w])))
        for i, d in enumerate(docs[1] + docs[2]):
            r.append(('has_doc %d' % i, lambda d=d: x.has_doc(d)))
        return r
    run(e, make, *steps, answers)


TEXTS = ('aa', 'bb', 'cc bb', 'dd')


def whole(e, kind, sizes, texts=TEXTS, ids=(1, 2, 3), ops=('index', 'unindex'), cutoff=None, same=False):
    """TextIndex with the real lexicon"""
    def make():
        lex, idx, ti = h_pure.real_text(e, kind)
        if cutoff is not None:
            idx.DICT_CUTOFF = cutoff
        return ti
    steps, docs = ([], [], []), ([], [], [])
    for p, i in parts(sizes):
        nm = '%d.%d' % (p, i)
        op = e.choice('op' + nm, ops) if p else 'index'
        if op == 'clear':
            steps[p].append(lambda x: x.clear())
            e.cover('clear')
            continue
        d = e.choice('d' + nm, ids) if p else i + 1
        if p:
            docs[p].append(d)
        if op == 'index':
            t = e.choice('t' + nm, texts)
            steps[p].append(lambda x, d=d, t=t: x.index_doc(d, t))
        else:
            steps[p].append(lambda x, d=d: x.unindex_doc(d))
    if not same and any(x in docs[2] for x in docs[1]):
        e.stop()
    words = sorted(set(' '.join(texts).split()))

    def answers(x):
        r = [('documents', x.documentCount), ('words', x.wordCount), ('lexicon', x.lexicon.wordCount)]
        for w in words:
            r.append(('word ' + w, lambda w=w: x.lexicon.get_wid(w) and x.lexicon.get_word(x.lexicon.get_wid(w))))
            r.append(('search ' + w, lambda w=w: x.apply(w)))
        r.append(('glob', lambda: x.apply('a* OR b*')))
        r.append(('phrase', lambda: x.apply('"cc bb"')))
        return r
    run(e, make, *steps, answers)


def lexicon(e, sizes, length, alphabet):
    """words learned concurrently"""
    L = e.mod('zope.index.text.lexicon')

    steps, words = ([], [], []), []
    for p, i in parts(sizes):
        nm = '%d.%d' % (p, i)
        w = e.str('w' + nm, e.choice('l' + nm, length), alphabet)
        words.append(w)
        steps[p].append(lambda x, w=w: x.sourceToWordIds(w))

    def answers(x):
        r = [('words', x.wordCount)]
        for i, w in enumerate(words):
            ws = x.termToWordIds(w)
            r.append(('word %d' % i, lambda ws=ws: [k and x.get_word(k) for k in ws]))
            r.append(('known %d' % i, lambda ws=ws: [k != 0 for k in ws]))
        r.append(('all words', lambda: sorted(x.words())))
        r.append(('ids', lambda: len(set(x.wids()))))
        return r
    run(e, lambda: L.Lexicon(L.Splitter()), *steps, answers)
