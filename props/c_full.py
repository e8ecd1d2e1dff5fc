import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_full.py')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


TEXTS = ('aa bb', 'bb the AA', '', 'bb the cc', 'Bb-aa aa')
QUERIES = ('aa', 'AA bb', '"bb aa"', 'aa OR cc', 'aa NOT cc', 'b*', '"bb of cc" OR aa-bb', 'bb AND NOT "aa bb"', 'zz OR ?a',
           'c?', '(aa OR cc) AND NOT (aa AND bb)', 'the', 'aa -bb', 'of bb')
TWO = ('Aa', 'aa', '"aa bb"', 'aa AND NOT "bb aa"', 'a*', 'A*', 'aa bb', 'bb OR aa', '"Aa bb"', 'AA', 'bb aa', 'aa-bb')
MORE = ('aa bb aa', 'dd', 'aabb', 'cc cc bb aa', None)
ALL = ('okapi', 'cosine')


def g01(tier):
    deep = tier == 'thorough'
    q = tuple(x for x in QUERIES if '?a' not in x)
    texts = TEXTS + MORE if deep else TEXTS
    nq = '%d texts, %d queries' % (len(texts), len(q))
    C = ('found', 'not found')
    toks = ('aa', 'bb', 'OR', 'NOT', '-aa', '"aa bb"', 'b*', 'the')
    out = [
        S('reindex', 'history', '3 operations (index, reindex, unindex, clear) on 2 documents, ' + nq,
          C + ('reindex', 'unindex', 'clear', 'rejected'), n=3, texts=texts if deep else TEXTS[:4], queries=q,
          setups=ALL if deep else ('okapi',), ids=(1, 2)),
        S('two documents', 'history', '2 documents in an Okapi or cosine index, ' + nq, C + ('reindex',), n=2, texts=texts,
          queries=q, ops=('index',)),
        S('setups', 'history', '2 operations, all 7 ways of making the index', C, n=2, texts=TEXTS[:3], queries=q[:8],
          setups=('default', 'lexicon', 'okapi', 'cosine', 'index', 'cosine index', 'keywords'), ops=('index', 'unindex')),
        S('pipelines', 'history', '2 documents with 4 pipelines: case kept or folded, stop words, single characters', C,
          n=2, texts=('aa Bb', 'the x bb', 'AA x'), queries=('aa', 'BB', 'the', 'x', '"the x"', 'A*', 'x?', 'aa NOT x',
                                                            '"aa bb"', 'AA OR bb'),
          setups=ALL, pipes=('plain', 'fold', 'stop', 'single'), ops=('index',), ids=(1, 2)),
        S('earlier queries', 'history', '3 operations with other queries between', C, n=3, texts=TEXTS[:3], queries=q[:6],
          setups=ALL if deep else ('okapi',), ops=('index', 'unindex', 'ask'), ids=(1, 2), earlier=('zz aa', 'the', '(', 'b*', '"cc dd"')),
        S('two queries', 'two', '3 documents, one of %d queries, a change or none, one of them again; case kept or not'
          % len(TWO), C + ('none', 'unindex', 'reindex', 'new'), texts=('Aa bb', 'aa Bb', 'bb aa'),
          first=TWO if deep else TWO[:5], second=TWO, setups=ALL if deep else ('okapi',)),
        S('bulk', 'history', '12 documents, then 2 operations (index, reindex, unindex)', C, n=2,
          texts=('aa', 'bb cc', ''), queries=('aa', 'bb', '"aa bb"', 'a* NOT cc', 'bb cc', 'aa OR dd'), setups=ALL,
          ops=('index', 'unindex'), ids=(100, 105, 300),
          preload=('aa', 'aa bb', 'aa bb cc', 'bb aa', 'aa', 'cc aa', 'aa bb', 'aa aa', 'bb', 'aa dd', 'aa cc', 'aa')),
        S('tokens', 'tokens', '2 documents, any query of %d tokens out of %d' % (4 if deep else 3, len(toks)),
          C + ('rejected',), n=2, texts=TEXTS[:4] if deep else ('aa bb', 'bb'), k=4 if deep else 3, toks=toks,
          setups=ALL if deep else ('okapi',)),
        S('any texts', 'chars', '1 text of 0-%d characters over a B _ - * blank e-acute, %d queries' % (4 if deep else 3, 5),
          C, lens=(0, 1, 2, 3, 4) if deep else (0, 1, 2, 3), alpha='aB_-* \xc9', queries=('a', 'b a', '"a b"', 'a* OR \xe9', 'b NOT a'),
          setups=ALL if deep else ('okapi',)),
        S('any two texts', 'chars', '2 texts of 1-2 characters, one or two documents', C, n=2, lens=(1, 2),
          alpha='aB ', queries=('a', '"a b"', 'a?', 'b NOT a'), ops=('index',), ids=(1, 2), fixed=('a b',)),
        S('any query', 'query_chars', 'queries of 1-%d characters over a B " - * blank ( )' % (5 if deep else 4),
          C + ('rejected',), lens=(1, 2, 3, 4, 5) if deep else (1, 2, 3, 4), alpha='aB"-* ()' if deep else 'aB"-* ',
          texts=('a b', 'B', 'b A', 'ab')),
    ]
    return out


SCENARIOS = {'G01': g01}
