"""Lexicon, glob patterns, pipeline elements."""


def lexmod(e):
    return e.mod('zope.index.text.lexicon')


def word(e, name, lens, alpha):
    return e.str(name, e.choice(name + '#', lens), alpha)


def texts(e, name, nwords, lens, alpha):
    return [word(e, '%s.%d' % (name, i), lens, alpha) for i in range(e.choice(name + 'n', nwords))]


def split(text, extra=''):
    """maximal runs of letters, digits and underscores; later characters may come from extra"""
    out, cur = [], None
    for c in text:
        if c.isalnum() or c == '_':
            cur = c if cur is None else cur + c
        elif cur is not None and c in extra:
            cur = cur + c
        elif cur is not None:
            out.append(cur)
            cur = None
    if cur is not None:
        out.append(cur)
    return out


# ------------------------------------------------------------------- ids

def check_lexicon(e, lex, known):
    """known: [(word, wid)]"""
    e.check(lex.wordCount() == len(known), 'wordCount')
    some = known if len(known) < 20 else known[:2] + known[-4:]
    for i, (w, wid) in enumerate(some):
        e.check(lex.get_wid(w) == wid, 'the id of a word never changes')
        e.check(lex.get_word(wid) == w, 'the word of an id')
        e.check(wid != 0, 'no word has id 0')
        for w2, wid2 in some[:i]:
            e.check(wid != wid2, 'different words have different ids')
    e.check(len(list(lex.words())) == len(known), 'words()')
    e.check(len(list(lex.wids())) == len(known), 'wids()')
    e.check(len(list(lex.items())) == len(known), 'items()')


def wid_of(known, w):
    for x, wid in known:
        if x == w:
            return wid
    return None


def ids(e, n, ops, nwords, lens, alpha, start=0, text=False, probe=True):
    L = lexmod(e)
    lex = L.Lexicon(L.Splitter()) if text else L.Lexicon()
    known = []
    if start:
        for i in range(start):
            wid = lex.sourceToWordIds(['w%d' % i])[0]
            known.append(('w%d' % i, wid))
    for i in range(n):
        op = e.choice('op%d' % i, ops) if i else 'source'
        if text:
            t = [word(e, 't%d' % i, lens, alpha)]
            ws = split(t[0])
            arg = t[0] if i % 2 == 0 else t
        else:
            ws = texts(e, 't%d' % i, nwords, lens, alpha)
            arg = ws
        if op == 'source':
            got = lex.sourceToWordIds(arg)
            e.check(len(got) == len(ws), 'one id per word')
            for w, wid in zip(ws, got):
                old = wid_of(known, w)
                if old is None:
                    known.append((w, wid))
                    e.cover('new word')
                else:
                    e.check(old == wid, 'a known word keeps its id')
                    e.cover('known word')
        elif op == 'term':
            got = lex.termToWordIds(arg)
            e.check(len(got) == len(ws), 'one id per query word')
            for w, wid in zip(ws, got):
                old = wid_of(known, w)
                e.check(wid == (0 if old is None else old), 'id of a query word')
                if old is None:
                    e.cover('unknown query word')
        elif op == 'parse':
            got = lex.parseTerms(arg)
            e.check(len(got) == len(ws), 'parseTerms: number of words')
            for w, g in zip(ws, got):
                e.check(w == g, 'parseTerms: words')
        elif op == 'glob':
            if ws and len(ws[0]):
                got = lex.globToWordIds(ws[0] + '*')
                e.check(len(got) <= len(known), 'glob finds known words only')
        elif op == 'none':
            e.check(lex.sourceToWordIds(None) == [], 'no text, no words')
        check_lexicon(e, lex, known)
    if probe:
        w = word(e, 'probe', lens, alpha)
        old = wid_of(known, w)
        e.check(lex.get_wid(w) == (0 if old is None else old), 'get_wid')
        e.check_list(lex.termToWordIds([w, w]), [0 if old is None else old] * 2, 'termToWordIds')
        if old is None and len(w):
            e.check_list(lex.globToWordIds(w), [], 'globToWordIds of an unknown word')
            e.cover('unknown')
        check_lexicon(e, lex, known)
    e.observe('ids', [wid for w, wid in known])


# ------------------------------------------------------------------ globs

def matches(p, w):
    """shell matching of the whole word"""
    if len(p) == 0:
        return len(w) == 0
    if p[0] == '*':
        for k in range(len(w) + 1):
            if matches(p[1:], w[k:]):
                return True
        return False
    if len(w) == 0:
        return False
    if p[0] == '?' or p[0] == w[0]:
        return matches(p[1:], w[1:])
    return False


def glob(e, nwords, wlens, walpha, plens, palpha, extra=(), first=None):
    L = lexmod(e)
    lex = L.Lexicon()
    known = []
    ws = [word(e, 'w%d' % i, wlens, walpha) for i in range(nwords)] + list(extra)
    for w in ws:
        wid = lex.sourceToWordIds([w])[0]
        if wid_of(known, w) is None:
            known.append((w, wid))
    p = word(e, 'p', plens, palpha)
    if first:
        p = e.str('p0', 1, first) + p
    if len(p) and p[0] in '*?':
        qe = e.mod('zope.index.text.parsetree').QueryError
        e.must_raise(qe, 'leading wildcard raises QueryError', lex.globToWordIds, p)
        e.cover('leading wildcard')
        check_lexicon(e, lex, known)
        return
    got = lex.globToWordIds(p)
    want = [wid for w, wid in known if matches(p, w)]
    e.check_ids(got, want, 'ids of the matching words')
    if len(want) > 1:
        e.cover('several words')
    if want and ('*' in p or '?' in p):
        e.cover('wildcard match')
    check_lexicon(e, lex, known)


# --------------------------------------------------------------- pipeline

def splitter(e, lens, alpha, ntexts=(1,), globmode=(False, True)):
    L = lexmod(e)
    s = L.Splitter()
    ts = texts(e, 't', ntexts, lens, alpha)
    g = e.choice('glob', globmode)
    got = (s.processGlob if g else s.process)(list(ts))
    want = []
    for t in ts:
        want.extend(split(t, '*?' if g else ''))
    e.check_list(got, want, 'words')
    if len(want) > 1:
        e.cover('several words')


def remove_markup(t):
    out = ''
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        j = None
        if c == '<':
            k = i + 1
            while k < n and t[k] != '<' and t[k] != '>':
                k += 1
            if k < n and t[k] == '>':
                j = k + 1
        elif c == '&':
            k = i + 1
            while k < n and ('a' <= t[k] <= 'z' or 'A' <= t[k] <= 'Z'):
                k += 1
            if k > i + 1 and k < n and t[k] == ';':
                j = k + 1
        if j is None:
            out = out + c
            i += 1
        else:
            out = out + ' '
            i = j
    return out


def html(e, lens, alpha, ntexts=(1,), globmode=(False, True), prefix='', suffix=''):
    H = e.mod('zope.index.text.htmlsplitter')
    s = H.HTMLWordSplitter()
    ts = [prefix + t + suffix for t in texts(e, 't', ntexts, lens, alpha)]
    g = e.choice('glob', globmode)
    got = (s.processGlob if g else s.process)(list(ts))
    want = []
    for t in ts:
        clean = remove_markup(t.lower())
        if len(clean) < len(t):
            e.cover('markup removed')
        want.extend(split(clean, '*?' if g else ''))
    e.check_list(got, want, 'words')
    if len(want) > 1:
        e.cover('several words')


STOP = ("a and are as at be but by for if in into is it no not of on or such that the their then there these they "
        "this to was will with").split()


def stopwords(e, lens, alpha, n, which=('stop', 'single', 'case')):
    L = lexmod(e)
    ws = [word(e, 'w%d' % i, lens, alpha) for i in range(n)]
    k = e.choice('which', which)
    if k == 'case':
        got = L.CaseNormalizer().process(list(ws))
        e.check_list(got, [w.lower() for w in ws], 'lower-cased words')
        return
    if k == 'stop':
        got = L.StopWordRemover().process(list(ws))
        want = [w for w in ws if w not in STOP]
    else:
        got = L.StopWordAndSingleCharRemover().process(list(ws))
        want = [w for w in ws if w not in STOP and not (len(w) == 1 and ord(w) < 255)]
    e.check_list(got, want, 'kept words')
    if len(want) < n:
        e.cover('dropped')
    if want:
        e.cover('kept')


def stop_independent(e):
    """the two removers do not share their stop words"""
    L = lexmod(e)
    w = e.str('w', 1, range(0, 300))
    L.StopWordAndSingleCharRemover().process([w])
    got = L.StopWordRemover().process([w])
    e.check_list(got, [] if w == 'a' else [w], 'kept words')


def pipeline(e, lens, alpha, html_=False, single=False):
    """the whole default pipeline through the lexicon"""
    L = lexmod(e)
    sp = e.mod('zope.index.text.htmlsplitter').HTMLWordSplitter() if html_ else L.Splitter()
    lex = L.Lexicon(sp, L.CaseNormalizer(), L.StopWordAndSingleCharRemover() if single else L.StopWordRemover())
    t = word(e, 't', lens, alpha)
    low = remove_markup(t.lower()) if html_ else t
    want = []
    for w in split(low):
        w = w.lower()
        if w not in STOP and not (single and len(w) == 1 and ord(w) < 255):
            want.append(w)
    e.check_list(lex.parseTerms(t), want, 'parseTerms')
    got = lex.sourceToWordIds(t)
    e.check(len(got) == len(want), 'number of ids')
    for w, wid in zip(want, got):
        e.check(lex.get_word(wid) == w, 'word of the id')
    e.check_list(lex.termToWordIds(t), got, 'query ids')
    if want:
        e.cover('words')
