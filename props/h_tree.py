"""Execution of parse trees."""


class Index:
    """answers leaves with prescribed results"""

    def __init__(self, family, results):
        self.family = family
        self.results = results
        self.asked = []

    def search(self, term):
        self.asked.append(('search', term))
        return self.results[term]

    def search_phrase(self, words):
        self.asked.append(('phrase', tuple(words)))
        return self.results[words[0]]

    def search_glob(self, pattern):
        self.asked.append(('glob', pattern))
        return self.results[pattern[:-1]]


# shapes: leaves are numbers, negated operands ('not', x)
SHAPES = (
    ('and', 0, 1),
    ('or', 0, 1),
    ('and', 0, ('not', 1)),
    ('and', ('not', 0), 1),
    ('and', 0, 1, 2),
    ('or', 0, 1, 2),
    ('and', 0, ('not', 1), ('not', 2)),
    ('and', 0, 1, ('not', 2)),
    ('and', ('not', 0), 1, 2),
    ('or', ('and', 0, 1), 2),
    ('and', ('or', 0, 1), 2),
    ('or', 0, ('and', 1, ('not', 2))),
    ('and', 0, ('not', ('or', 1, 2))),
    ('and', 0, ('not', ('and', 1, 2))),
    ('and', 0, ('not', ('and', 1, ('not', 2)))),
    ('and', ('and', 0, ('not', 1)), 2),
    ('and', ('or', 0, ('and', 1, ('not', 0))), 2),
    ('or', ('or', 0, 1), ('and', 0, 2)),
    ('and', ('and', 0, 1), ('and', 1, 2)),
    ('and', 0),
    ('or', 0),
    0,
)
WIDE = (
    ('and', 0, ('not', 1), ('not', 2), ('not', 3), ('not', 4)),
    ('and', 0, ('not', 1), ('not', 2), ('not', 3)),
    ('and', 0, 1, 2, 3, 4),
    ('or', 0, 1, 2, 3, 4),
    ('and', 0, 1, 2, ('not', 3), ('not', 4)),
    ('and', ('not', 3), 0, ('not', 4), 1, ('not', 2)),
    ('or', ('and', 0, 1, 2), ('and', 3, ('not', 4), ('not', 0), ('not', 1))),
    ('and', ('or', 0, 1, 2), ('not', ('or', 3, 4, 0)), ('not', 1)),
)
DEEP = (
    ('and', ('or', 0, 1), ('or', 2, 3)),
    ('or', ('and', 0, 1), ('and', 2, 3)),
    ('and', 0, 1, ('not', 2), ('not', 3)),
    ('and', 0, 1, 2, 3),
    ('or', 0, 1, 2, 3),
    ('and', ('or', 0, ('and', 1, ('not', 2))), ('not', 3)),
    ('or', ('and', 0, ('not', ('or', 1, 2))), 3),
    ('and', 0, ('not', ('and', 1, ('not', ('and', 2, ('not', 3)))))),
    ('or', ('and', ('or', 0, 1), ('not', 2)), ('and', 3, ('not', 0))),
    ('and', ('or', 0), ('or', ('and', 1), 2, 3)),
)


def build(pt, s, names, kinds):
    if not isinstance(s, tuple):
        n = names[s]
        if kinds[s] == 'atom':
            return pt.AtomNode(n)
        if kinds[s] == 'phrase':
            return pt.PhraseNode([n, 'x'])
        return pt.GlobNode(n + '*')
    if s[0] == 'not':
        return pt.NotNode(build(pt, s[1], names, kinds))
    kids = [build(pt, x, names, kinds) for x in s[1:]]
    return pt.AndNode(kids) if s[0] == 'and' else pt.OrNode(kids)


def leaves(s):
    if not isinstance(s, tuple):
        return [s]
    out = []
    for x in s[1:]:
        for y in leaves(x):
            if y not in out:
                out.append(y)
    return out


def positive(s):
    if not isinstance(s, tuple):
        return [s]
    if s[0] == 'not':
        return []
    return [y for x in s[1:] for y in positive(x)]


OUT = 'left out'


def value(s, d, results):
    """OUT for an operand left out, None if d is not selected, else its score"""
    if not isinstance(s, tuple):
        r = results[s]
        return OUT if r is None else r.get(d)
    if s[0] == 'or':
        vs = [v for v in [value(x, d, results) for x in s[1:]] if v is not OUT and v is not None]
        return sum(vs) if vs else None
    pos = [value(x, d, results) for x in s[1:] if not (isinstance(x, tuple) and x[0] == 'not')]
    neg = [value(x[1], d, results) for x in s[1:] if isinstance(x, tuple) and x[0] == 'not']
    pos = [v for v in pos if v is not OUT]
    if not pos or any([v is None for v in pos]):
        return None
    if any([v is not OUT and v is not None for v in neg]):
        return None
    return sum(pos)


def tree(e, shapes, docs, bits=32, none=False, real=False, symdocs=False, kinds=('atom',), wrap='BTree'):
    pt = e.mod('zope.index.text.parsetree')
    family = e.family(bits)
    s = e.choice('shape', shapes)
    names = ['a', 'b', 'c', 'd', 'e', 'f']
    n = max(leaves(s)) + 1
    lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
    ids = [e.int('id%d' % i, lo, hi) for i in range(docs)] if symdocs else list(range(1, docs + 1))
    if symdocs:
        for a, b in zip(ids, ids[1:]):
            e.assume(a < b)
    results, table, kind = {}, [], []
    for i in range(n):
        kind.append(e.choice('kind%d' % i, kinds))
        if none and e.flag('none%d' % i):
            results[names[i]] = None
            table.append(None)
            e.cover('left out')
            continue
        t = {}
        m = getattr(family.IF, wrap)()
        for j, d in enumerate(ids):
            if e.flag('in%d.%d' % (i, j)):
                t[j] = e.real('s%d.%d' % (i, j), 0, 1000) if real else e.int('s%d.%d' % (i, j), 1, 1000)
                m[d] = t[j]
        results[names[i]] = m
        table.append(t)
    before = [None if table[i] is None else [(d, x) for d, x in results[names[i]].items()] for i in range(n)]
    idx = Index(family, results)
    node = build(pt, s, names, kind)
    res = node.executeQuery(idx)
    if not isinstance(s, tuple) and table[s] is None:
        e.check(res is None, 'a query without words')
        return
    got = e.pairs(res)
    e.observe('result', [(d, x) for d, x in res.items()])
    count = 0
    for j, d in enumerate(ids):
        v = value(s, j, table)
        here = [x for k, x in got if k == d]
        if v is None or v is OUT:
            e.check(len(here) == 0, 'selected although the expression is false')
            e.cover('out')
        else:
            count += 1
            e.check(len(here) == 1, 'selected although ... missing')
            e.close(here[0], v, 'score is the sum of the scores of the positive operands')
            e.cover('in')
    e.check(len(got) == count, 'no other document')
    e.check(isinstance(res, (family.IF.BTree, family.IF.Bucket)), 'a mapping of the family of the index')
    # terms
    want = [names[i] for i in positive(s)]
    have = [t if isinstance(t, str) else t[0] for t in node.terms()]
    have = [t[:1] for t in have]
    e.check(have == want, 'positive terms')
    # the results of the index are not changed
    for i in range(n):
        if before[i] is not None:
            now = [(d, x) for d, x in results[names[i]].items()]
            e.check(len(now) == len(before[i]), 'results of the index unchanged')
            for (d, x), (d2, x2) in zip(now, before[i]):
                e.check(e.and_(d == d2, x == x2), 'results of the index unchanged')
            e.check(isinstance(results[names[i]], getattr(family.IF, wrap)), 'results of the index unchanged')


def bare_not(e):
    pt = e.mod('zope.index.text.parsetree')
    idx = Index(e.family(), {'a': None})
    e.must_raise(pt.QueryError, 'NOT cannot be executed alone', pt.NotNode(pt.AtomNode('a')).executeQuery, idx)
    n = pt.AndNode([pt.AtomNode('a'), pt.NotNode(pt.AtomNode('a'))])
    e.check(n.terms() == ['a'], 'terms')
    e.check([n.nodeType()] + [x.nodeType() for x in n.getValue()] == ['AND', 'ATOM', 'NOT'], 'node types')
    e.check(len(n.executeQuery(idx)) == 0, 'no words')
    e.check(len(pt.OrNode([pt.AtomNode('a')]).executeQuery(idx)) == 0, 'no words')


def real_index(e, kind, queries, ndocs, words=('xx', 'yy'), maxlen=(0, 1, 2)):
    """parsed queries on a real index against the sets of the leaves"""
    L = e.mod('zope.index.text.lexicon')
    lex = L.Lexicon(L.Splitter(), L.CaseNormalizer(), L.StopWordRemover())
    if kind == 'okapi':
        idx = e.mod('zope.index.text.okapiindex').OkapiIndex(lex)
    else:
        idx = e.mod('zope.index.text.cosineindex').CosineIndex(lex)
    for i in range(ndocs):
        n = e.choice('n%d' % i, maxlen)
        idx.index_doc(i + 1, ' '.join([e.choice('w%d.%d' % (i, j), words) for j in range(n)]))
    q, spec = e.choice('q', queries)
    ti = e.mod('zope.index.text.textindex').TextIndex(lex, idx)
    parser = e.mod('zope.index.text.queryparser').QueryParser(lex)
    res = parser.parseQuery(q).executeQuery(idx)
    table = []
    for t in LEAVES:
        r = idx.search(t) if '"' not in t else idx.search_phrase(t.replace('"', ''))
        table.append(None if r is None else dict([(d, s) for d, s in r.items()]))
    r = dict([(d, s) for d, s in res.items()])
    e.observe('result', sorted(r.items()))
    for d in range(1, ndocs + 1):
        v = value(spec, d, table)
        if v is None or v is OUT:
            e.check(d not in r, 'selected although the expression is false')
        else:
            e.cover('in')
            e.check(d in r, 'missing')
            e.close(r[d], v, 'score')
    a = ti.apply(q)
    e.check(sorted(a.keys()) == sorted(r), 'apply selects the same')


LEAVES = ('xx', 'yy', 'the', '"xx yy"', 'qq')
QUERIES = (
    ('xx AND yy', ('and', 0, 1)),
    ('xx OR yy', ('or', 0, 1)),
    ('xx NOT yy', ('and', 0, ('not', 1))),
    ('xx AND NOT yy', ('and', 0, ('not', 1))),
    ('xx the', ('and', ('and', 0))),
    ('xx NOT the', ('and', 0)),
    ('the OR yy', ('or', 1)),
    ('"xx yy" OR yy', ('or', 3, 1)),
    ('yy NOT "xx yy"', ('and', 1, ('not', 3))),
    ('yy -xx', ('and', 1, ('not', 0))),
    ('xx AND qq', ('and', 0, 4)),
    ('xx NOT qq', ('and', 0, ('not', 4))),
    ('(xx OR yy) AND NOT (xx AND yy)', ('and', ('or', 0, 1), ('not', ('and', 0, 1)))),
    ('xx xx', ('and', 0, 0)),
)
