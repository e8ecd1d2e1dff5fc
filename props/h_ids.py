"""Document ids over the whole range of the BTree family."""
from props import h_field, h_keyword, h_topic, h_text

ERRORS = (TypeError, OverflowError, ValueError)


def family_types(fam):
    return (fam.IF.Set, fam.IF.TreeSet, fam.IF.BTree, fam.IF.Bucket)


def others(fam_other):
    return family_types(fam_other)


def ids_of(e, n, bits, congruent):
    """n different ids of the range; congruent: all equal modulo 2**32"""
    lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
    out = []
    for i in range(n):
        d = e.int('d%d' % i, lo, hi)
        for x in out:
            e.assume(d != x)
        if congruent and out:
            k = e.int('k%d' % i, -2 ** 31, 2 ** 31)
            e.assume(d == out[0] + k * 2 ** 32)
        out.append(d)
    return out


def adapter(e, kind, bits):
    """(put(docid, content), remove(docid), find(content), everything(), index) of one index type; content is 0 or 1"""
    if kind == 'field':
        idx = h_field.make(e, bits)
        return (lambda d, c: idx.index_doc(d, c), idx.unindex_doc, lambda c: idx.apply((c, c)),
                lambda: idx.apply((None, None)), idx)
    if kind in ('keyword', 'keyword case'):
        idx = h_keyword.make(e, 'none' if kind == 'keyword' else 'lower', bits)
        return (lambda d, c: idx.index_doc(d, ['x', 'ab'[c]]), idx.unindex_doc, lambda c: idx.search('ab'[c]),
                lambda: idx.search(['a', 'b'], 'or'), idx)
    if kind == 'topic':
        idx = h_topic.make(e, bits)
        P = e.mod('zope.index.topic.filter').PythonFilteredSet
        for n, x in (('0', 'context.c == 0'), ('1', 'context.c == 1')):
            if bits == 32:
                idx.addFilter(P(n, x))
            else:
                idx.addFilter(P(n, x, family=e.family(bits)))
        return (lambda d, c: idx.index_doc(d, h_topic.Doc(c=c)), idx.unindex_doc, lambda c: idx.search('01'[c]),
                lambda: idx.search(['0', '1'], 'or'), idx)
    idx = h_text.make(e, kind, bits)
    return (lambda d, c: idx.index_doc(d, [5, 6 + c]), idx.unindex_doc, lambda c: idx.search([6 + c]),
            lambda: idx.search([5]), idx)


def history(e, kind, bits, n, congruent, steps=0, probe=True, cutoff=None, threshold=None, preload=0):
    """n documents, then operations on them"""
    put, remove, find, everything, idx = adapter(e, kind, bits)
    if cutoff is not None:
        idx.DICT_CUTOFF = cutoff
    if threshold is not None:
        idx.tree_threshold = threshold
    fam = e.family(bits)
    other = e.family(96 - bits)
    ids = ids_of(e, n, bits, congruent)
    old = [(i * 2 ** 32 if bits == 64 else 2 ** 16 * i) - 2 ** (bits - 2) + 7 for i in range(preload)]
    for d in ids:
        for x in old:
            e.assume(d != x)
        # among the others, or far away
        if old and e.flag('near'):
            e.assume(d > old[len(old) // 2])
            e.assume(d < old[len(old) // 2 + 3])
        elif old:
            e.assume(d > old[-1])
    ids += old
    model = {}
    for i, d in enumerate(ids):
        put(d, i % 2)
        model[i] = i % 2
    for i in range(steps):
        op = e.choice('op%d' % i, ('reindex', 'unindex'))
        j = e.pick('which%d' % i, n if not preload else n + 1)
        e.cover(op)
        if op == 'reindex':
            c = 1 - model.get(j, 1)
            put(ids[j], c)
            model[j] = c
        else:
            remove(ids[j])
            model.pop(j, None)
    for c in (0, 1):
        r = find(c)
        e.check_ids(r, [ids[j] for j in model if model[j] == c], 'documents with the content %d' % c)
        e.check(isinstance(r, family_types(fam)), 'a collection of the family of the index')
        e.check(not isinstance(r, family_types(other)), 'a collection of the family of the index')
    r = everything()
    e.check_ids(r, [ids[j] for j in model], 'all documents')
    e.check(isinstance(r, family_types(fam)), 'a collection of the family of the index')
    if kind.startswith('keyword'):
        e.check_ids(idx.search(['a'], 'or'), [ids[j] for j in model if model[j] == 0], 'or of one keyword')
        e.check_ids(idx.search(['x', 'b']), [ids[j] for j in model if model[j] == 1], 'and of two keywords')
        e.check_ids(idx.search(['b', 'zz'], 'or'), [ids[j] for j in model if model[j] == 1], 'or with an unknown keyword')
    if kind == 'topic':
        for op in ('and', 'or'):
            e.check_ids(idx.search(['0'], op), [ids[j] for j in model if model[j] == 0], 'search of one filter')
        e.check_ids(idx.search(['0', '1'], 'and'), [], 'documents of both filters')
    if kind != 'topic':
        e.check(idx.documentCount() == len(model), 'documentCount')
    # results combine with those of other indexes of the family
    mine = fam.IF.Set([ids[0]])
    u = fam.IF.union(fam.IF.Set(e.ids(r)), mine)
    both = fam.IF.intersection(r, mine)
    e.check_ids(both, [ids[0]] if 0 in model else [], 'combined with another result')
    e.check(len(u) == len(model) + (0 if 0 in model else 1), 'combined with another result')
    if probe:
        p = e.int('probe', -2 ** (bits - 1), 2 ** (bits - 1) - 1)
        known = [ids[j] for j in model]
        if hasattr(idx, 'has_doc'):
            e.check(e.eq(bool(idx.has_doc(p)), e.anyeq(p, known)), 'has_doc')
    if kind == 'field':
        rev = e.flag('reverse')
        for form in (fam.IF.Set, list, fam.IF.TreeSet, tuple) if len(ids) < 9 else (fam.IF.TreeSet, list):
            s = list(idx.sort(form(ids), rev))
            e.check(len(s) == len(model), 'sorted ids')
            for d in s:
                e.check(e.anyeq(d, [ids[j] for j in model]), 'sorted ids')
        s = list(idx.sort(list(ids), rev, 1))
        e.check(len(s) == min(1, len(model)), 'sorted ids')
        for d in s:
            e.check(e.anyeq(d, [ids[j] for j in model]), 'sorted ids')
    if kind in ('okapi', 'cosine'):
        for j in model:
            e.check(e.anyeq(ids[j], [d for d, s in e.pairs(find(model[j]))]), 'scored document')
    if len(model) > 1:
        e.cover('several')


def query_types(e, kind, bits):
    """every way to ask gives a collection of the family, also when empty"""
    put, remove, find, everything, idx = adapter(e, kind, bits)
    fam = e.family(bits)
    n = e.choice('n', (0, 1, 2))
    ids = ids_of(e, n, bits, False)
    for i, d in enumerate(ids):
        put(d, i % 2)
    rs = [find(0), find(1), everything()]
    if kind == 'field':
        rs += [idx.apply((0, None)), idx.apply((None, 0)), idx.apply((7, None)), idx.apply((1, 0))]
    elif kind.startswith('keyword'):
        for op in ('and', 'or'):
            rs += [idx.search([], op), idx.search(['a'], op), idx.search(['a', 'b'], op), idx.search(['zz'], op),
                   idx.search(['zz', 'a'], op), idx.search(['x', 'a'], op)]
        rs += [idx.apply('a'), idx.apply({'query': ['a', 'x'], 'operator': 'or'})]
    elif kind == 'topic':
        for op in ('and', 'or'):
            rs += [idx.search([], op), idx.search(['0'], op), idx.search(['0', '1'], op), idx.search(['z'], op)]
        rs += [idx.apply('1'), idx.apply({'query': ['0', '1'], 'operator': 'or'})]
    else:
        rs += [idx.search_phrase([5, 6]), idx.search_glob([6, 7]), idx.search([5, 6]), idx.search([99]),
               idx.search_phrase([6, 5]), idx.search_phrase([5])]
    types = family_types(fam)
    maps = (fam.IF.BTree, fam.IF.Bucket)
    for r in rs:
        e.check(isinstance(r, types), 'a collection of the family of the index')
        if kind in ('okapi', 'cosine'):
            e.check(isinstance(r, maps), 'a mapping of the family of the index')
        # combinable
        fam.IF.intersection(r, fam.IF.Set([1]))


def outside(e, kind, bits, before):
    """an id outside the range is not stored as another one"""
    put, remove, find, everything, idx = adapter(e, kind, bits)
    ids = ids_of(e, before, bits, False)
    for i, d in enumerate(ids):
        put(d, 0)
    x = e.int('x')
    if e.flag('low'):
        e.assume(x < -2 ** (bits - 1))
    else:
        e.assume(x > 2 ** (bits - 1) - 1)
    e.must_raise(ERRORS, 'an id outside the range is rejected', put, x, e.choice('c', (0, 1)))
    e.check_ids(everything(), ids, 'all documents after a rejected id')
    e.check_ids(find(0), ids, 'documents with a content after a rejected id')
    e.check_ids(find(1), [], 'documents with the other content after a rejected id')
    if kind == 'field':
        e.check_list(idx.sort(e.family(bits).IF.Set(ids)), sorted(ids), 'sort after a rejected id')


def text_apply(e, kind, bits, congruent):
    """TextIndex.apply with the real lexicon"""
    L = e.mod('zope.index.text.lexicon')
    lex = L.Lexicon(L.Splitter())
    idx = h_text.make(e, kind, bits, lex)
    ti = e.mod('zope.index.text.textindex').TextIndex(lex, idx)
    fam = e.family(bits)
    a, b = ids_of(e, 2, bits, congruent)
    ti.index_doc(a, 'aa bb')
    ti.index_doc(b, 'bb cc')
    for q, want in (('aa', [a]), ('bb', [a, b]), ('aa OR cc', [a, b]), ('bb NOT aa', [b]), ('"aa bb"', [a]),
                    ('a* AND bb', [a]), ('aa AND cc', []), ('zz', []), ('"bb cc" OR aa', [a, b]),
                    ('bb NOT aa NOT zz', [b]), ('bb -cc -zz -aa', []), ('bb AND NOT (aa OR zz) AND NOT "cc bb"', [b]),
                    ('aa OR cc OR "bb cc" OR a*', [a, b]), ('bb AND b* AND "aa bb" AND NOT zz', [a])):
        r = ti.apply(q)
        e.check_ids(r.keys(), want, 'documents of ' + q)
        e.check(isinstance(r, (fam.IF.BTree, fam.IF.Bucket)), 'a mapping of the family of the index')
    ti.unindex_doc(a)
    e.check_ids(ti.apply('bb').keys(), [b], 'after an unindex')
    e.check(not idx.has_doc(a), 'has_doc')
    e.check(idx.has_doc(b), 'has_doc')
    e.check(ti.documentCount() == 1, 'documentCount')


def setops(e, name_, bits, n):
    """weighted set operations on mappings of a family"""
    S = e.mod('zope.index.text.setops')
    fam = e.family(bits)
    lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
    ids = ids_of(e, 2, bits, e.flag('congruent'))
    ms = []
    for i in range(n):
        m = fam.IF.BTree()
        for j, d in enumerate(ids):
            if e.flag('in%d.%d' % (i, j)):
                m[d] = i + 1
        ms.append((m, 1))
    r = getattr(S, name_)(list(ms), fam)
    e.check(isinstance(r, (fam.IF.BTree, fam.IF.Bucket)), 'a mapping of the family')
    want = []
    for j, d in enumerate(ids):
        hit = [m for m, w in ms if d in m]
        if hit and (name_ == 'mass_weightedUnion' or len(hit) == n):
            want.append(d)
    e.check_ids(r.keys(), want, 'keys')
