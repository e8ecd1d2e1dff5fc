"""Query parser, parse trees."""


def parts(e):
    return e.mod('zope.index.text.queryparser'), e.mod('zope.index.text.parsetree'), e.mod('zope.index.text.lexicon')


STOP = ("a and are as at be but by for if in into is it no not of on or such that the their then there these they "
        "this to was will with").split()


def lexicon(e):
    L = e.mod('zope.index.text.lexicon')
    return L.Lexicon(L.Splitter(), L.CaseNormalizer(), L.StopWordRemover())


# ------------------------------------------------------- reference parser

class Bad(Exception):
    pass


def is_space(c):
    return c.isspace()


def tokenize(q):
    """list of tokens of the query"""
    out = []
    i, n = 0, len(q)
    while i < n:
        c = q[i]
        if c == '(' or c == ')':
            out.append(c)
            i += 1
            continue
        # quoted, with or without a hyphen
        s = i + 1 if c == '-' else i
        if s < n and q[s] == '"':
            k = s + 1
            while k < n and not (q[k] == '"'):
                k += 1
            if k < n:
                out.append(q[i:k + 1])
                i = k + 1
                continue
        if c == '"' or is_space(c):
            i += 1
            continue
        k = i
        while k < n and not (q[k] == '(' or q[k] == ')' or q[k] == '"' or is_space(q[k])):
            k += 1
        out.append(q[i:k])
        i = k
    return out


def split(text):
    out, cur = [], None
    for c in text:
        if c.isalnum() or c == '_':
            cur = c if cur is None else cur + c
        elif cur is not None and (c == '*' or c == '?'):
            cur = cur + c
        elif cur is not None:
            out.append(cur)
            cur = None
    if cur is not None:
        out.append(cur)
    return [w.lower() for w in out]


def words_of(token):
    return [w for w in split(token) if w not in STOP]


class Ref:
    """Reference parser.  A result is None (only stop words), or a triple
    (kind, children/leaf, positive terms)."""

    def __init__(self, toks):
        self.t = toks
        self.k = []
        for x in toks:
            u = x.upper()
            if u == 'AND' or u == 'OR' or u == 'NOT' or u == '(' or u == ')':
                if u == 'AND':
                    self.k.append('AND')
                elif u == 'OR':
                    self.k.append('OR')
                elif u == 'NOT':
                    self.k.append('NOT')
                elif u == '(':
                    self.k.append('(')
                else:
                    self.k.append(')')
            else:
                self.k.append('ATOM')
        self.k.append('EOF')
        self.i = 0
        self.ignored = []

    def start(self):
        r = self.or_()
        if self.k[self.i] != 'EOF':
            raise Bad('rest')
        if r is None:
            raise Bad('only stop words')
        return r

    def or_(self):
        alts = [self.and_()]
        while self.k[self.i] == 'OR':
            self.i += 1
            alts.append(self.and_())
        alts = [a for a in alts if a is not None]
        if not alts:
            return None
        return ('or', alts)

    def and_(self):
        pos, neg = [], []
        t = self.term()
        if t is not None:
            pos.append(t)
        while self.k[self.i] in ('AND', 'NOT'):
            negated = False
            if self.k[self.i] == 'AND':
                self.i += 1
                if self.k[self.i] == 'NOT':
                    self.i += 1
                    negated = True
            else:
                self.i += 1
                negated = True
            t = self.term()
            if t is None:
                continue
            (neg if negated else pos).append(t)
        if not pos:
            return None
        return ('and', pos, neg)

    def term(self):
        if self.k[self.i] == '(':
            self.i += 1
            r = self.or_()
            if self.k[self.i] != ')':
                raise Bad(')')
            self.i += 1
            return r
        if self.k[self.i] != 'ATOM':
            raise Bad('atom')
        pos, neg = [], []
        while self.k[self.i] == 'ATOM':
            tok = self.t[self.i]
            self.i += 1
            ws = words_of(tok)
            if not ws:
                self.ignored.append(tok)
            elif tok[0] == '-':
                neg.append(('leaf', ws))
            else:
                pos.append(('leaf', ws))
        if not pos:
            if neg:
                raise Bad('no positive word')
            return None
        return ('and', pos, neg)


def ref_value(r, leaf, e):
    if r[0] == 'leaf':
        return leaf(r[1])
    if r[0] == 'or':
        return e.or_(*[ref_value(x, leaf, e) for x in r[1]])
    return e.and_(*([ref_value(x, leaf, e) for x in r[1]] + [e.not_(ref_value(x, leaf, e)) for x in r[2]]))


def ref_terms(r):
    if r[0] == 'leaf':
        return [r[1]]
    out = []
    for x in r[1]:
        out.extend(ref_terms(x))
    return out


# ---------------------------------------------------------- tree semantics

def tree_value(t, leaf, e):
    k = t.nodeType()
    v = t.getValue()
    if k == 'AND':
        pos = [x for x in v if x.nodeType() != 'NOT']
        neg = [x.getValue() for x in v if x.nodeType() == 'NOT']
        e.check(len(pos) > 0, 'an AND has a positive operand')
        return e.and_(*([tree_value(x, leaf, e) for x in pos] + [e.not_(tree_value(x, leaf, e)) for x in neg]))
    if k == 'OR':
        e.check(len(v) > 0, 'an OR has an operand')
        return e.or_(*[tree_value(x, leaf, e) for x in v])
    if k == 'ATOM':
        e.check(isinstance(v, str), 'an atom holds a word')
        e.check(not ('*' in v or '?' in v), 'a word with wildcards is no plain atom')
        return leaf([v])
    if k == 'GLOB':
        e.check('*' in v or '?' in v, 'a glob has wildcards')
        return leaf([v])
    if k == 'PHRASE':
        e.check(len(v) > 1, 'a phrase has several words')
        return leaf(list(v))
    e.check(False, 'NOT only below AND')


class Leaves:
    def __init__(self, e):
        self.e, self.known = e, []

    def __call__(self, ws):
        for k, b in self.known:
            if len(k) == len(ws) and all([x == y for x, y in zip(k, ws)]):
                return b
        b = self.e.bool('leaf%d' % len(self.known))
        self.known.append((list(ws), b))
        return b


def aslist(x):
    return [x] if isinstance(x, str) else list(x)


def same_words(a, b):
    return len(a) == len(b) and all([x == y for x, y in zip(a, b)])


def check_terms(e, got, want, msg):
    got = [aslist(x) for x in got]
    want = [list(x) for x in want]
    e.check(len(got) == len(want), msg + ' (number)')
    for w in want:
        n = len([1 for x in want if same_words(w, x)])
        m = len([1 for x in got if same_words(w, x)])
        e.check(n == m, msg)


def check_structure(e, t, under_and=False):
    k = t.nodeType()
    v = t.getValue()
    if k == 'NOT':
        e.check(under_and, 'NOT only below AND')
        check_structure(e, v)
    elif k == 'AND':
        e.check(len([x for x in v if x.nodeType() != 'NOT']) > 0, 'a positive term in every AND')
        for x in v:
            check_structure(e, x, True)
    elif k == 'OR':
        e.check(len(v) > 0, 'OR with operands')
        for x in v:
            check_structure(e, x)
    else:
        e.check(k in ('ATOM', 'PHRASE', 'GLOB'), 'known node types only')


def shape(t):
    k = t.nodeType()
    v = t.getValue()
    if k == 'NOT':
        return [k, shape(v)]
    if k in ('AND', 'OR'):
        return [k] + [shape(x) for x in v]
    return [k] + aslist(v)


# -------------------------------------------------------------- scenarios

def compare(e, q, deep=True):
    """the parser against the reference, on one query"""
    qp, pt, lm = parts(e)
    parser = qp.QueryParser(lexicon(e))
    err, tree = False, None
    try:
        tree = parser.parseQuery(q)
    except pt.ParseError:
        err = True
    ref = Ref(tokenize(q))
    referr, r = False, None
    try:
        r = ref.start()
    except Bad:
        referr = True
    e.observe('tree', None if err else shape(tree))
    e.check(err == referr, 'ParseError exactly for queries outside the grammar or with stop words only')
    if err:
        e.cover('rejected')
        return
    e.cover('accepted')
    leaf = Leaves(e)
    a = tree_value(tree, leaf, e)
    b = ref_value(r, leaf, e)
    e.check(e.and_(e.implies(a, b), e.implies(b, a)), 'selects what the grammar prescribes')
    check_terms(e, tree.terms(), ref_terms(r), 'positive terms')
    e.check_list(parser.getIgnored(), ref.ignored, 'ignored terms')
    if ref.ignored:
        e.cover('ignored')


TOKENS = ('x', 'y', 'the', 'AND', 'or', 'Not', '(', ')', '-y', '"x y"', 'x*', 'x-z')


def tokens(e, n, choices=TOKENS, sep=' '):
    ts = [e.choice('t%d' % i, choices) for i in range(n)]
    compare(e, sep.join(ts))


def groups(e, prefixes, words, ops, n, suffixes=('',)):
    """a group of n words joined by operators, behind a prefix"""
    q = e.choice('prefix', prefixes) + '('
    for i in range(n):
        if i:
            q += e.choice('op%d' % i, ops)
        q += e.choice('w%d' % i, words)
    compare(e, q + ')' + e.choice('suffix', suffixes))


def chars(e, lens, alpha, prefix='', suffix=''):
    n = e.choice('n', lens)
    compare(e, prefix + e.str('q', n, alpha) + suffix)


def structured(e, depth, width, leaves=('x', 'y', 'z')):
    """valid queries by construction"""
    cnt = [0]

    def name():
        cnt[0] += 1
        return 'c%d' % cnt[0]

    def atom():
        return e.choice(name(), leaves)

    def term(d):
        if d > 0 and e.pick(name(), 2):
            return '(' + orx(d - 1) + ')'
        n = e.choice(name(), (1, 2))
        ws = [atom()]
        for i in range(1, n):
            ws.append(('-' if e.pick(name(), 2) else '') + atom())
        return ' '.join(ws)

    def andx(d):
        n = e.choice(name(), tuple(range(1, width + 1)))
        s = term(d)
        for i in range(1, n):
            s += e.choice(name(), (' AND ', ' AND NOT ', ' NOT ')) + term(d)
        return s

    def orx(d):
        n = e.choice(name(), tuple(range(1, width + 1)))
        return ' OR '.join([andx(d) for i in range(n)])
    compare(e, orx(depth))


# ------------------------------------------------------------------- Q02

def robust(e, lens=(), alpha='', prefix='', suffix='', reuse=('',), execute=False, tokens=(), n=0):
    qp, pt, lm = parts(e)
    if tokens:
        q = ' '.join([e.choice('t%d' % i, tokens) for i in range(n)])
    else:
        q = prefix + e.str('q', e.choice('n', lens), alpha) + suffix
    lex = lexicon(e)
    index = None
    if execute:
        index = e.mod('zope.index.text.okapiindex').OkapiIndex(lex)
        index.index_doc(1, 'x ox xx')
        index.index_doc(2, 'r x')
    parser = qp.QueryParser(lex)
    first = e.choice('first', reuse)
    if first:
        try:
            parser.parseQuery(first)
        except pt.ParseError:
            pass
    before = lex.wordCount()
    tree = None
    try:
        tree = parser.parseQuery(q)
    except pt.ParseError:
        pass
    e.check(lex.wordCount() == before, 'no word is created')
    ignored = list(parser.getIgnored())
    # a term is ignored or kept
    fresh = qp.QueryParser(lex)
    t2 = None
    try:
        t2, i2 = fresh.parseQueryEx(q)
    except pt.ParseError:
        i2 = fresh.getIgnored()
    e.check((t2 is None) == (tree is None), 'an earlier query does not matter')
    e.check_list(ignored, list(i2), 'ignored terms of the last query')
    e.check(sum([1 for t in ignored if words_of(t)]) == 0, 'only stop words are ignored')
    if tree is not None or only_stop_words(q):
        want = [t for t in tokenize(q) if not is_op(t) and not words_of(t)]
        e.check_list(ignored, want, 'exactly the terms with stop words only')
    if ignored:
        e.cover('ignored')
    if tree is None:
        e.cover('rejected')
        e.observe('tree', None)
        return
    e.cover('accepted')
    e.observe('tree', shape(tree))
    check_structure(e, tree)
    e.check(len(tree.terms()) > 0, 'a positive term')
    e.check(same_shape(shape(tree), shape(t2)), 'same tree again')
    if execute:
        tree.executeQuery(index)
def is_op(t):
    u = t.upper()
    return u == 'AND' or u == 'OR' or u == 'NOT' or u == '(' or u == ')'


def only_stop_words(q):
    """a query of the grammar that has no other words: all its terms are dropped"""
    ref = Ref(tokenize(q))
    try:
        r = ref.or_()
    except Bad:
        return False
    return ref.k[ref.i] == 'EOF' and r is None


def same_shape(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all([same_shape(x, y) for x, y in zip(a, b)])
    return a == b


def ex_tokens(e, n, choices=TOKENS):
    """executing any accepted query on a real index never fails"""
    qp, pt, lm = parts(e)
    ti = e.mod('zope.index.text.textindex').TextIndex()
    ti.index_doc(1, 'x y x')
    ti.index_doc(2, 'y z')
    q = ' '.join([e.choice('t%d' % i, choices) for i in range(n)])
    try:
        r = ti.apply(q)
    except pt.ParseError:
        e.cover('rejected')
        return
    e.cover('accepted')
    for d in r:
        e.check(d in (1, 2), 'only documents')


def nested(e, depths, must):
    """deeply nested queries: a tree or a ParseError, and the parser works afterwards"""
    qp, P, lm = parts(e)
    p = qp.QueryParser(lexicon(e))
    n = e.choice('depth', depths)
    a, b, c = e.choice('shape', (('(', 'x', ')'), ('y OR (', 'x', ')'), ('(y NOT ', 'x', ')'), ('(', 'x', ''), ('(', 'the', ')'),
                                 ('y AND NOT (', 'x', ' NOT z)'), ('', 'x', ' NOT (y)')))
    q = a * n + b + c * n
    try:
        t = p.parseQuery(q)
    except P.ParseError:
        t = None
        e.cover('rejected')
    if t is not None:
        e.cover('accepted')
        check_structure(e, t)
    if n <= must and b == 'x' and (a != '(y NOT ' or n == 1) and len(c) == 1 and a != 'y AND NOT (':
        e.check(t is not None, 'a valid query')
    t, ignored = p.parseQueryEx('x the')
    e.check(shape(t) == ['ATOM', 'x'], 'the next query')
    e.check_list(ignored, ['the'], 'the next ignored terms')
