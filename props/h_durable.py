"""What is committed is what a new session sees."""
from props import h_field, h_keyword, h_topic, h_text, h_pure


AFTER = ('', 'commit', 'reload')


def run(e, root, steps, answers, after=AFTER, last=True):
    """steps: functions of the current root.  After each one nothing, a
    commit, or a commit and a new session; the last one is always seen from a
    new session."""
    s = e.session(root)
    if after == 'abort':
        return aborted(e, s, root, steps, answers)
    for i, f in enumerate(steps):
        f(root)
        end = i == len(steps) - 1
        a = 'reload' if end else e.choice('after%d' % i, after)
        if a == 'commit':
            s.commit()
            e.cover('commit')
        elif a == 'reload':
            before = [(label, h_pure.plain(e, g())) for label, g in answers(root)]
            s.commit()
            root = s.reload()
            now = [(label, h_pure.plain(e, g())) for label, g in answers(root)]
            e.check(len(before) == len(now), 'answers of a new session')
            for (label, x), (l2, y) in zip(before, now):
                h_pure.same(e, x, y, label + ' of a new session')
                if not end:
                    continue
                if y[0] in ('set', 'map', 'list'):
                    e.observe(label, y[1] if y[0] == 'list' else ('sorted', y[1]))
                    if y[1]:
                        e.cover('found')
                else:
                    e.observe(label, y[1])
    s.close()
    return root


def aborted(e, s, root, steps, answers):
    """some steps are committed, the others aborted, and done again"""
    k = e.choice('committed', tuple(range(len(steps))))

    def see():
        return [(label, h_pure.plain(e, g())) for label, g in answers(root)]

    def compare(xs, ys, when):
        e.check(len(xs) == len(ys), 'answers ' + when)
        for (label, x), (l2, y) in zip(xs, ys):
            h_pure.same(e, x, y, label + when)
    for f in steps[:k]:
        f(root)
    s.commit()
    before = see()
    for f in steps[k:]:
        f(root)
    first = see()
    s.abort()
    skip = e.choice('skip', (0, 1)) if k < len(steps) - 1 else 0
    if not skip:
        now = see()
        compare(before, now, ' after an abort')
        for label, y in now:
            if y[0] in ('set', 'map', 'list'):
                e.observe(label, y[1] if y[0] == 'list' else ('sorted', y[1]))
                if y[1]:
                    e.cover('found')
            else:
                e.observe(label, y[1])
    for f in steps[k + skip:]:
        f(root)
    then = see()
    if skip:
        e.cover('other')
    else:
        compare(first, then, ' done again')
        e.cover('again')
    s.commit()
    root = s.reload()
    compare(then, see(), ' of a new session')
    s.close()
    return root


def field(e, n, kind='int', bits=32, ops=('index', 'unindex', 'clear'), ids=None, after=AFTER):
    idx = h_field.make(e, bits)
    model = {}
    docs, vals = [], []
    steps = []
    for i in range(n):
        op = e.choice('op%d' % i, ops) if i else 'index'
        if op == 'clear':
            steps.append(lambda x: x.clear())
            e.cover('clear')
            continue
        d = h_field.docid(e, 'd%d' % i, bits) if ids is None else e.choice('d%d' % i, ids)
        if op == 'index':
            v = h_field.value(e, 'v%d' % i, kind)
            docs.append(d)
            vals.append(v)
            steps.append(lambda x, d=d, v=v: x.index_doc(d, v))
        else:
            steps.append(lambda x, d=d: x.unindex_doc(d))

    def answers(x):
        r = [('documentCount', x.documentCount), ('wordCount', x.wordCount),
             ('all documents', lambda: x.apply((None, None)))]
        for i, v in enumerate(vals):
            r.append(('value %d' % i, lambda v=v: x.apply((v, v))))
        r.append(('sort', lambda: sorted_values(x)))
        return r

    def sorted_values(x):
        return list(x.sort(x.family.IF.Set(x.apply((None, None)))))
    run(e, idx, steps, answers, after)


def keyword(e, n, sizes, kind, norm='none', ops=('index', 'unindex'), threshold=None, bits=32, ids=None, after=AFTER,
            preload=0, first=True):
    idx = h_keyword.make(e, norm, bits)
    if threshold is not None:
        idx.tree_threshold = threshold
    seen = []
    docs = []
    for i in range(preload):
        idx.index_doc(100 + i, ['a'])
        docs.append(100 + i)
    if preload:
        seen.append('a')
    steps = []
    for i in range(n):
        op = e.choice('op%d' % i, ops) if i or not first else 'index'
        if op == 'clear':
            steps.append(lambda x: x.clear())
            e.cover('clear')
        elif op == 'optimize':
            steps.append(lambda x: x.optimize())
            e.cover('optimize')
        elif op == 'threshold':
            t = e.choice('t%d' % i, (0, 1, 2, 10))
            steps.append(lambda x, t=t: setattr(x, 'tree_threshold', t))
            e.cover('threshold')
        else:
            d = h_keyword.docid(e, 'd%d' % i, bits) if ids is None else e.choice('d%d' % i, ids)
            docs.append(d)
            if op == 'index':
                ws = h_keyword.words(e, 'w%d' % i, sizes, kind)
                seen.extend(ws)
                steps.append(lambda x, d=d, ws=ws: x.index_doc(d, list(ws)))
            else:
                steps.append(lambda x, d=d: x.unindex_doc(d))
    distinct = h_keyword.uniq(seen)

    def answers(x):
        r = [('documentCount', x.documentCount), ('wordCount', x.wordCount),
             ('all documents', lambda: x.search(list(distinct), 'or'))]
        for i, w in enumerate(distinct):
            r.append(('keyword %d' % i, lambda w=w: x.search([w])))
        for i, d in enumerate(docs):
            r.append(('has_doc %d' % i, lambda d=d: x.has_doc(d)))
        r.append(('threshold', lambda: x.tree_threshold))
        return r
    run(e, idx, steps, answers, after)


def remove(x, name):
    try:
        x.delFilter(name)
    except KeyError:    # not added in this run
        pass


def topic(e, n, ops, names=('f', 'g'), start=('f',), bits=32, ids=None, after=AFTER):
    idx = h_topic.make(e, bits)
    have = list(start)
    for name in start:
        idx.addFilter(h_topic.fset(e, name, bits))
    steps = []
    for i in range(n):
        op = e.choice('op%d' % i, ops)
        e.cover(op)
        if op == 'add':
            name = e.choice('name%d' % i, names)
            have.append(name)
            steps.append(lambda x, name=name: x.addFilter(h_topic.fset(e, name, bits)))
        elif op == 'del':
            name = e.choice('name%d' % i, names)
            if name not in have:
                e.stop()
            have = [x for x in have if x != name]
            steps.append(lambda x, name=name: remove(x, name))
        elif op == 'clear':
            have = []
            steps.append(lambda x: x.clear())
        elif op == 'clearFilters':
            steps.append(lambda x: x.clearFilters())
        elif op == 'expression':
            name = e.choice('name%d' % i, names)
            if name not in have:
                e.stop()
        else:
            d = e.int('d%d' % i, -2 ** (bits - 1), 2 ** (bits - 1) - 1) if ids is None else e.choice('d%d' % i, ids)
            if op == 'index':
                doc, truth = h_topic.make_doc(e, i)
                steps.append(lambda x, d=d, doc=doc: x.index_doc(d, doc))
            else:
                steps.append(lambda x, d=d: x.unindex_doc(d))

    def answers(x):
        r = [('filter ' + name, lambda name=name: x.search(name)) for name in names]
        r.append(('any', lambda: x.search(list(names), 'or')))
        r.append(('all', lambda: x.search(list(names))))
        return r
    run(e, idx, steps, answers, after)


def text(e, kind, steps, wmax=127, cutoff=None, preload=0, ids=None, after=AFTER, bits=32, dmax=None):
    """the text indexes with words given by their ids"""
    idx = h_text.make(e, kind, bits)
    if cutoff is not None:
        idx.DICT_CUTOFF = cutoff
    docs, seen = [], []
    for i in range(preload):
        idx.index_doc(1000 + i, [1])
    if preload:
        seen.append(1)
    acts = []
    hi = 2 ** (bits - 1) - 1
    for i, ops in enumerate(steps):
        op = e.choice('op%d' % i, ops)
        if op == 'c':
            acts.append(lambda x: x.clear())
            e.cover('clear')
            continue
        d = e.choice('d%d' % i, ids) if ids else e.int('d%d' % i, -hi - 1, hi)
        docs.append(d)
        if op == 'u':
            acts.append(lambda x, d=d: x.unindex_doc(d))
            continue
        ws = [e.int('w%d.%d' % (i, j), 1, wmax) for j in range(int(op))]
        seen.extend(ws)
        acts.append(lambda x, d=d, ws=ws: x.index_doc(d, list(ws)))
    words = h_text.distinct(seen)

    def answers(x):
        r = [('documentCount', x.documentCount), ('wordCount', x.wordCount)]
        for i, w in enumerate(words):
            r.append(('word %d' % i, lambda w=w: x.search([w])))
        if len(words) > 1:
            r.append(('phrase', lambda: x.search_phrase(words[:2])))
        for i, d in enumerate(docs):
            r.append(('has_doc %d' % i, lambda d=d: x.has_doc(d)))
        return r
    run(e, idx, acts, answers, after)


TEXTS = ('aa', 'bb aa', '', 'aa bb cc', 'cc dd')


def real_text(e, kind, n, texts=TEXTS, ids=(1, 2), ops=('index', 'unindex', 'clear'), after=AFTER, default=False):
    """TextIndex with the real lexicon"""
    if default:
        ti = e.mod('zope.index.text').TextIndex()
    else:
        lex, idx, ti = h_pure.real_text(e, kind)
    steps = []
    for i in range(n):
        op = e.choice('op%d' % i, ops) if i else 'index'
        if op == 'clear':
            steps.append(lambda x: x.clear())
            continue
        d = e.choice('d%d' % i, ids)
        if op == 'index':
            t = e.choice('t%d' % i, texts)
            steps.append(lambda x, d=d, t=t: x.index_doc(d, t))
        elif op == 'parse':
            t = e.choice('t%d' % i, ('ee', 'aa ee'))
            steps.append(lambda x, t=t: x.apply(t))
        else:
            steps.append(lambda x, d=d: x.unindex_doc(d))
    steps.append(lambda x: None)
    words = sorted(set(' '.join(texts).split()) | {'ee'})

    def answers(x):
        r = [('documents', x.documentCount), ('words', x.wordCount), ('lexicon', x.lexicon.wordCount)]
        r.append(('the lexicon of the index', lambda: x.index.lexicon is x.lexicon))
        for w in words:
            r.append(('id of ' + w, lambda w=w: x.lexicon.get_wid(w)))
            r.append(('word of ' + w, lambda w=w: x.lexicon.get_wid(w) and x.lexicon.get_word(x.lexicon.get_wid(w))))
            r.append(('search ' + w, lambda w=w: x.apply(w)))
        r.append(('glob', lambda: x.apply('a*')))
        r.append(('words of a glob', lambda: x.lexicon.globToWordIds('a*')))
        r.append(('phrase', lambda: x.apply('"aa bb"')))
        return r
    run(e, ti, steps, answers, after)


def lexicon(e, n, length, alphabet, after=AFTER):
    L = e.mod('zope.index.text.lexicon')
    lex = L.Lexicon(L.Splitter())
    steps, words = [], []
    for i in range(n):
        w = e.str('w%d' % i, e.choice('len%d' % i, length), alphabet)
        words.append(w)
        steps.append(lambda x, w=w: x.sourceToWordIds(w))

    def answers(x):
        r = [('words', x.wordCount)]
        for i, w in enumerate(words):
            r.append(('id of word %d' % i, lambda w=w: x.termToWordIds(w)))
        r.append(('glob', lambda: x.globToWordIds('a*')))
        r.append(('all words', lambda: [x.get_word(k) for k in sorted(x.wids())]))
        return r
    run(e, lex, steps, answers, after)
