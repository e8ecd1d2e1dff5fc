import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_iso.py')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


def i01(tier):
    deep = tier == 'thorough'
    n = 3 if deep else 2
    A = ' documents with any ids, a query, then a change of the index or of the result'
    base = ('found', 'spoil', 'again', 'index', 'unindex', 'clear')
    out = [
        S('field', 'field', '%d%s' % (2, A), base, n=2),
        S('field 64', 'field', '2%s' % A, base, n=2, bits=64),
        S('keyword', 'keyword', '%d%s' % (n, A), base + ('set', 'reindex', 'to trees'), n=n),
        S('keyword trees', 'keyword', '%d%s; all sets are trees' % (n, A), base + ('to sets',), n=n, threshold=1),
        S('keyword case', 'keyword', '%d%s' % (2, A), base, n=2, norm='lower', bits=64),
        S('topic', 'topic', '%d%s' % (n, A), base + ('clearFilters', 'other'), n=n),
        S('topic 64', 'topic', '2%s' % A, base, n=2, bits=64),
    ]
    B = ' more documents; 1 on 4 ids (known or new), a query, then a change of the index or of the result'
    out += [
        S('field bulk', 'field', '40%s' % B, base, n=1, preload=40),
        S('keyword bulk', 'keyword', '66%s; default threshold' % B, base + ('reindex', 'to trees', 'to sets'), n=1,
          preload=66),
        S('topic bulk', 'topic', '40%s' % B, base + ('clearFilters', 'other'), n=1, preload=40)]
    for kind in ('okapi', 'cosine'):
        out.append(S(kind + ' bulk', 'text', '12%s; default cutoff' % B, base + ('reindex',), kind=kind, n=1,
                     preload=12))
    for kind in ('okapi', 'cosine'):
        out += [S(kind, 'text', '%d%s' % (n, A), base + ('reindex',), kind=kind, n=n),
                S(kind + ' trees', 'text', '%d%s; words in trees' % (n, A), base, kind=kind, n=n, cutoff=2, preload=2),
                S(kind + ' whole', 'whole', '%d%s' % (2, A.replace('any ids', '3 texts')), base, kind=kind, n=2)]
    return out


SCENARIOS = {'I01': i01}
