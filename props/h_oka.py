"""okascore.score, the inner loop of the Okapi index in C."""


class Refuses:
    """a mapping that refuses to be changed or read"""

    def __getitem__(self, k):
        raise RuntimeError('read')

    def __setitem__(self, k, v):
        raise RuntimeError('write')

    def __len__(self):
        return 2


class NoLen:
    def __len__(self):
        raise RuntimeError('length')

    def __getitem__(self, i):
        return (1, 1)


class Thing:
    pass


class Log:
    """a mapping that records its changes"""

    def __init__(self, n=None):
        self.changes, self.n = [], n

    def __setitem__(self, k, v):
        if len(self.changes) == self.n:
            raise RuntimeError('full')
        self.changes.append((k, v))


class Short:
    """pairs that end before their length does"""

    def __init__(self, pairs, n):
        self.pairs, self.n = pairs, n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return self.pairs[i]


def want(e, f, dl, idf, mean):
    return f * 2.2 / (f + 1.2 * (0.25 + 0.75 * dl / mean)) * idf


def make_pairs(e, n, lo, hi, flo=1, fhi=10 ** 6):
    ds = e.docids(n, lo, hi)
    for i in range(n):
        for j in range(i):
            e.assume(ds[i] != ds[j])
    fs = [e.int('f%d' % i, flo, fhi) for i in range(n)]
    return list(zip(ds, fs))


def lengths(e, kind, pairs, bits, extra=()):
    dl = [(d, e.int('l%d' % i, 0, 10 ** 6)) for i, (d, f) in enumerate(pairs)] + list(extra)
    if kind == 'dict':
        return dict(dl), dl
    f = e.family(bits)
    t = f.IF.BTree() if kind == 'IF' else f.II.BTree()
    for d, x in dl:
        t[d] = x
    return t, dl


def loop(e, n, kind, bits=32, dest='bucket', prior=False, form='list'):
    """scores of any pairs"""
    hi = 2 ** (bits - 1) - 1
    pairs = make_pairs(e, n, -hi - 1, hi)
    idf = e.real('idf', 0.001, 30)
    mean = e.real('mean', 0.001, 10 ** 6)
    extra = []
    other = None
    if prior:
        other = e.int('other', -hi - 1, hi)
        for d, f in pairs:
            e.assume(d != other)
        extra = [(other, 7)]
    d2len, dl = lengths(e, kind, pairs, bits, extra)
    if dest == 'dict':
        result = {}
    else:
        result = e.family(bits).IF.Bucket() if dest == 'bucket' else e.family(bits).IF.BTree()
    if prior:
        result[other] = 2.5
        if n:
            result[pairs[0][0]] = 99.0
    if form == 'items':
        d2f = e.family(bits).IF.BTree()
        for d, f in pairs:
            d2f[d] = f
        items = d2f.items()
    elif form == 'tuple':
        items = tuple(pairs)
    else:
        items = list(pairs)
    r, x, refs = e.oka().call(result, items, d2len, idf, mean)
    e.check(x is None, 'an ordinary call succeeds')
    e.check(r is None, 'score returns None')
    e.check(refs == '', 'references: ' + refs)
    got = e.pairs(result)
    e.check(len(got) == n + bool(prior), 'exactly the listed documents have a score')
    for i, (d, f) in enumerate(pairs):
        hit = None
        for d2, s in got:
            if d2 == d:
                hit = s
        e.check(hit is not None, 'every listed document has a score')
        e.close(hit, want(e, f, dl[i][1], idf, mean), 'score as the formula')
    if prior:
        for d2, s in got:
            if d2 == other:
                e.check(s == 2.5, 'other documents keep their score')
                e.cover('other')
    e.check(len(e.pairs(d2len)) == n + len(extra), 'lengths are left alone')
    for d, x in dl:
        for d2, y in e.pairs(d2len):
            if d2 == d:
                e.check(y == x, 'lengths are left alone')
    if form != 'items':
        e.check_list([d for d, f in items], [d for d, f in pairs], 'pairs are left alone')
    if n:
        e.cover('scored')


def order(e, n):
    """the results are stored one by one; a repeated docid gets its last score"""
    hi = 10 ** 6
    pairs = [(e.int('d%d' % i, 1000, hi), e.int('f%d' % i, 1, 1000)) for i in range(n)]
    d2len = {}
    for i, (d, f) in enumerate(pairs):
        d2len[d] = e.int('l%d' % i, 1000, hi)
    idf = e.real('idf', 0.001, 30)
    mean = e.real('mean', 0.001, 10 ** 6)
    log = Log()
    r, x, refs = e.oka().call(log, pairs, d2len, idf, mean)
    e.check(x is None and r is None, 'an ordinary call succeeds')
    e.check(refs == '', 'references: ' + refs)
    last = {}
    for d, s in log.changes:
        last[d] = s
    e.check(len(last) == len(distinct([d for d, f in pairs])), 'the listed documents have a score')
    for i, (d, f) in enumerate(pairs):
        e.check(d in last, 'every listed document has a score')
        if not any([d == d2 for d2, f2 in pairs[i + 1:]]):
            e.close(last[d], want(e, f, d2len[d], idf, mean), 'score as the formula')
    if len(last) < n:
        e.cover('repeated')


def distinct(xs):
    out = []
    for x in xs:
        if not any([x == y for y in out]):
            out.append(x)
    return out


def same_as_python(e, n, bits=32, tree=True):
    """search results with the loop in C and with the loop in Python"""
    m = e.mod('zope.index.text.okapiindex')
    idx = m.OkapiIndex(None, e.family(bits))
    py = getattr(idx, '_python_search_wids', None)
    cs = getattr(idx, '_c_search_wids', None)
    if py is None or cs is None:
        return
    hi = 2 ** (bits - 1) - 1
    pairs = make_pairs(e, n, -hi - 1, hi)
    total = 0
    wi = {} if not tree else e.family(bits).IF.BTree()
    for i, (d, f) in enumerate(pairs):
        dl = e.int('l%d' % i, 1, 10 ** 6)
        e.assume(f <= dl)
        wi[d] = f
        idx._docweight[d] = dl
        idx._docwords[d] = b'\x81'
        total = total + dl
    rest = e.int('rest', 0, 10 ** 9)
    idx._totaldoclen.change(total + rest)
    idx._wordinfo[5] = wi
    more = e.int('more', 0, 10 ** 6)
    idx.documentCount = lambda: n + more
    a, b = py([5]), cs([5])
    e.check(len(a) == len(b) == 1, 'one result per word')
    e.check(a[0][1] == b[0][1], 'weights')
    ga, gb = e.pairs(a[0][0]), e.pairs(b[0][0])
    e.check(len(ga) == len(gb) == n, 'documents')
    for d, s in ga:
        hit = None
        for d2, s2 in gb:
            if d2 == d:
                hit = s2
        e.check(hit is not None, 'documents')
        e.close(hit, s, 'the C loop gives the score of the Python loop', 1e-6)
    e.cover('compared')


BAD = ('pair is a list', 'triple', 'single', 'pair is a number', 'pair is a string', 'frequency is an object',
       'frequency is None', 'frequency too large', 'missing document', 'length is an object', 'length is None',
       'docid of another type', 'items is a number', 'items has no length', 'items end early', 'result refuses',
       'lengths refuse', 'result is full', 'result is a number', 'lengths is a number', 'few arguments',
       'many arguments', 'idf is a string', 'mean is None', 'items is a dict')


def bad(e, n, kinds=BAD, form='list'):
    """what is wrong gives an exception and keeps the references"""
    k = e.choice('bad', kinds)
    at = e.pick('at', n)
    pairs = make_pairs(e, n, 1000, 10 ** 6, 1000)
    ds = [d for d, f in pairs]
    d2len = {d: e.int('l%d' % i, 1000, 10 ** 6) for i, d in enumerate(ds)}
    log = Log()
    result, items, lens, idf, mean = log, list(pairs), d2len, 1.5, 3.5
    d, f = pairs[at]
    done = at
    if k == 'pair is a list':
        items[at] = [d, f]
    elif k == 'triple':
        items[at] = (d, f, f)
    elif k == 'single':
        items[at] = (d,)
    elif k == 'pair is a number':
        items[at] = d
    elif k == 'pair is a string':
        items[at] = 'ab'
    elif k == 'frequency is an object':
        items[at] = (d, Thing())
    elif k == 'frequency is None':
        items[at] = (d, None)
    elif k == 'frequency too large':
        items[at] = (d, 10 ** 400)
    elif k == 'missing document':
        del d2len[d]
    elif k == 'length is an object':
        d2len[d] = Thing()
    elif k == 'length is None':
        d2len[d] = None
    elif k == 'docid of another type':
        lens = e.family().IF.BTree()
        for d, f in pairs:
            lens[d] = 5
        items[at] = ('xyz', 5)
    elif k == 'items is a number':
        items, done = 1234, 0
    elif k == 'items has no length':
        items, done = NoLen(), 0
    elif k == 'items end early':
        items, done = Short(items, n + 1), n
    elif k == 'result refuses':
        result, done = Refuses(), 0
    elif k == 'lengths refuse':
        lens, done = Refuses(), 0
    elif k == 'result is full':
        result = log = Log(at)
    elif k == 'result is a number':
        result, done = 1234, 0
    elif k == 'lengths is a number':
        lens, done = 1234, 0
    elif k == 'idf is a string':
        idf, done = '1', 0
    elif k == 'mean is None':
        mean, done = None, 0
    elif k == 'items is a dict':
        items, done = dict(pairs), 0
    args = [result, items, lens, idf, mean]
    if k == 'few arguments':
        args, done = args[:-1], 0
    elif k == 'many arguments':
        args, done = args + [1.0], 0
    r, x, refs = e.oka().call(*args)
    e.check(x is not None, 'a call that fails raises an exception: ' + k)
    e.check(not isinstance(x, SystemError), 'a call that fails sets a proper exception: ' + k)
    e.check(refs == '', 'references: ' + refs)
    e.check(len(log.changes) <= done, 'nothing is stored from what is wrong')
    e.cover(k)


def faults(e, n, form='list', dest='log', calls=30):
    """one call into the interpreter fails"""
    pairs = make_pairs(e, n, 1000, 10 ** 6, 1000)
    d2len, dl = lengths(e, 'dict' if form == 'list' else 'IF', pairs, 32)
    if form == 'items':
        d2f = e.family().IF.BTree()
        for d, f in pairs:
            d2f[d] = f
        items = d2f.items()
    else:
        items = list(pairs)
    log = Log() if dest == 'log' else e.family().IF.Bucket()
    at = e.pick('fail', calls) + 1
    k = e.oka()
    r, x, refs = k.call(log, items, d2len, 1.5, 3.5, fail=at)
    e.check(refs == '', 'references: ' + refs)
    if k.calls() >= at:
        e.check(isinstance(x, MemoryError), 'a failing call makes score fail with its exception')
        e.cover('failed')
    else:
        e.check(x is None and r is None, 'without a failure the call succeeds')
        e.check(len(log.changes if dest == 'log' else e.pairs(log)) == n, 'all scores are stored')
        e.cover('not failed')
