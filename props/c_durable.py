import os

from symex.runner import Scenario

from . import h_durable

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_durable.py')

ASSUMPTIONS = {'D01': [
    'ZODB is modelled as: a commit writes the state of exactly those persistent objects reachable from the root that '
    'are new or flagged as changed; a new session sees the written states only. Replays use real ZODB with '
    'MappingStorage.']}


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


AB = '; after each operation nothing, a commit, or a commit and a new session'


def d01(tier):
    deep = tier == 'thorough'
    n = 3
    tree = ('commit', 'reload')
    out = [
        S('field', 'field', '%d operations (index_doc, unindex_doc, clear), any 32-bit ids and integer values' % n + AB,
          ('found', 'commit', 'clear'), n=n),
        S('keyword', 'keyword', '3 operations, ids 1-2, 0-1 keywords out of 2' + AB, ('found', 'commit'), n=3,
          sizes=(0, 1) if not deep else (0, 1, 2), kind='ab', ids=(1, 2)),
        S('keyword trees', 'keyword', 'threshold 1; 2 documents, then 2 operations (also optimize)' + AB,
          ('found', 'commit', 'optimize'), n=2, sizes=(0, 1), kind='ab', ids=(1, 100), preload=2, threshold=1,
          ops=('index', 'unindex', 'optimize'), first=False),
        S('keyword optimize', 'keyword', '3 documents, then 2 operations: threshold changed, optimize(), index_doc, '
          'clear' + AB, ('found', 'commit', 'optimize', 'threshold', 'clear'), n=3 if deep else 2, sizes=(1,),
          kind='ab', ids=(1, 100), preload=3, ops=('index', 'optimize', 'threshold', 'clear'), first=False),
        S('keyword case', 'keyword', '2 operations, case-insensitive index' + AB, ('found', 'commit'), n=2, sizes=(1, 2),
          kind='case1', norm='lower', ids=(1, 2)),
        S('topic', 'topic', '%d operations (index_doc, unindex_doc, clearFilters) on 2 filters' % n + AB,
          ('found', 'commit', 'index', 'unindex', 'clearFilters'), n=n, ops=('index', 'unindex', 'clearFilters'),
          start=('f', 'g') if deep else ('f',), names=('f', 'g') if deep else ('f',)),
        S('topic filters', 'topic', '%d operations (index_doc, addFilter, delFilter, clear)' % n + AB,
          ('found', 'commit', 'index', 'add', 'del', 'clear'), n=n, ops=('index', 'add', 'del', 'clear'), ids=(1, 2),
          after=AFTER if deep else tree, names=('f', 'g') if deep else ('f',)),
        S('lexicon', 'lexicon', '2 texts of 1-3 characters' + AB, ('found', 'commit'), n=3 if deep else 2,
          length=(1, 2, 3) if not deep else (1, 2), alphabet='ab '),
    ]
    out += [
        S('keyword bulk', 'keyword', '63 documents (default threshold 64), then 2 operations' + AB, ('found', 'commit'),
          n=2, sizes=(1, 2), kind='<ab', ids=(100, 130, 1000), preload=63, first=False),
        S('keyword bulk optimize', 'keyword', '66 documents, then 2 operations (also optimize, threshold)' + AB,
          ('found', 'commit', 'optimize', 'threshold'), n=2, sizes=(1,), kind='ab', ids=(100, 1000), preload=66,
          ops=('index', 'unindex', 'optimize', 'threshold'), first=False)]
    for kind in ('okapi', 'cosine'):
        out.append(S(kind + ' bulk', 'text', '10 documents (default cutoff 10), then 2 operations' + AB,
                     ('found', 'commit'), kind=kind, steps=(('1', '2', 'u'), ('1', 'u')), preload=10, ids=(1001, 2000),
                     wmax=2))
    for kind in ('okapi', 'cosine'):
        out += [
            S(kind, 'text', '3 operations on 2 documents, 1-2 words of any ids up to 127' + AB,
              ('found', 'commit', 'clear'), kind=kind, steps=(('1',), ('1', 'u', 'c'), ('2', 'u')) if not deep else (
                  ('1', '2'), ('1', 'u', 'c'), ('2', 'u', 'c')), ids=(1, 2)),
            S(kind + ' ids', 'text', '2 operations, any ids' + AB, ('found', 'commit'), kind=kind,
              steps=(('1', '2'), ('1', 'u')), wmax=2 ** 28 - 1 if deep else 127),
            S(kind + ' trees', 'text', 'dictionaries converted to trees: 3 documents with one word, then 2 operations'
              + AB, ('found', 'commit'), kind=kind, steps=(('1', 'u'), ('1', 'u')), cutoff=3, preload=3,
              ids=(1, 1000), wmax=2),
            S(kind + ' full', 'real_text', '%d operations on TextIndex with the real lexicon, ids 1-2, %d texts'
              % (n, len(h_durable.TEXTS)) + AB, ('found', 'commit'), kind=kind, n=3 if deep else 2,
              ops=('index', 'unindex', 'clear', 'parse')),
        ]
    out.append(S('default text index', 'real_text', '2 operations on TextIndex()' + AB, ('found', 'commit'),
                 kind='okapi', n=2, default=True, ops=('index', 'unindex')))
    return out


def d02(tier):
    deep = tier == 'thorough'
    n = 4 if deep else 3
    two = 3 if deep else 2
    AB = '; a part of them committed, the others aborted, then done again (all, or without the first)'
    X = {'after': 'abort'}
    C = ('found', 'again')
    out = [
        S('field', 'field', '3 operations (index_doc, unindex_doc, clear), any 32-bit ids and integer values' + AB,
          C + ('clear',), n=3, **X),
        S('field ids', 'field', '%d operations on %d ids' % (n, n - 1) + AB, C, n=n, ids=(1, 2, 3)[:n - 1], kind='str',
          bits=64, **X),
        S('keyword', 'keyword', '%d operations, ids 1-2, 0-%d keywords' % (n, 2 if deep else 1) + AB, C, n=n,
          sizes=(0, 1, 2) if deep else (0, 1), kind='<ab', ids=(1, 2),
          ops=('index', 'unindex', 'clear') if deep else ('index', 'unindex'), **X),
        S('keyword sets', 'keyword', '2 operations, 2-3 keywords, clear' + AB, C + ('clear',), n=2,
          sizes=(1, 2, 3) if deep else (2,), kind='<abc', ids=(1,), ops=('index', 'clear'), **X),
        S('keyword trees', 'keyword', 'threshold 3; 2 documents, then %d operations (also optimize)' % two + AB,
          C + ('optimize',), n=two, sizes=(0, 1), kind='ab', ids=(1, 100), preload=2, threshold=3,
          ops=('index', 'unindex', 'optimize'), first=False, **X),
        S('keyword optimize', 'keyword', '3 documents, then %d operations: threshold changed, optimize(), index_doc, '
          'clear' % two + AB, C + ('optimize', 'threshold', 'clear'), n=two, sizes=(1,), kind='ab', ids=(1, 100),
          preload=3, ops=('index', 'optimize', 'threshold', 'clear'), first=False, **X),
        S('keyword bulk', 'keyword', '63 documents (default threshold 64), then 2 operations' + AB, C, n=2,
          sizes=(1, 2) if deep else (1,), kind='<ab', ids=(100, 130, 1000) if deep else (100, 1000), preload=63,
          first=False, **X),
        S('topic', 'topic', '%d operations (index_doc, unindex_doc, clearFilters), any ids' % two + AB,
          C + ('index', 'unindex', 'clearFilters'), n=two, ops=('index', 'unindex', 'clearFilters'),
          start=('f', 'g'), names=('f', 'g'), **X),
        S('topic filters', 'topic', '%d operations (index_doc, addFilter, delFilter, clear)' % n + AB,
          C + ('index', 'add', 'del', 'clear'), n=n, ops=('index', 'add', 'del', 'clear'), ids=(1, 2) if deep else (1,),
          names=('f', 'g') if deep else ('f',), **X),
        S('lexicon', 'lexicon', '2 texts of 1-%d characters' % (4 if deep else 3) + AB, C, n=2,
          length=(1, 2, 3, 4) if deep else (1, 2, 3), alphabet='ab ', **X),
    ]
    for kind in ('okapi', 'cosine'):
        out += [
            S(kind, 'text', '3 operations on 2 documents, 1-2 words of any ids up to 127' + AB, C + ('clear',),
              kind=kind, steps=(('1', '2'), ('1', 'u', 'c'), ('2', 'u') if deep else ('1', 'u')),
              ids=(1, 2), **X),
            S(kind + ' ids', 'text', '2 operations, any ids' + AB, C, kind=kind, steps=(('1', '2'), ('1', 'u')),
              wmax=2 ** 28 - 1 if deep else 127, bits=64, **X),
            S(kind + ' trees', 'text', 'dictionaries converted to trees: 3 documents with one word, then %d operations'
              % two + AB, C, kind=kind, steps=(('1', 'u'),) * two, cutoff=3, preload=3, ids=(1, 1000), wmax=2, **X),
            S(kind + ' bulk', 'text', '10 documents (default cutoff 10), then 2 operations' + AB, C, kind=kind,
              steps=(('1', '2', 'u') if deep else ('1', 'u'), ('1', 'u')), preload=10, ids=(1001, 2000), wmax=2, **X),
            S(kind + ' full', 'real_text', '%d operations on TextIndex with the real lexicon, ids 1-2, %d texts'
              % (two, len(h_durable.TEXTS)) + AB, C, kind=kind, n=two,
              ops=('index', 'unindex', 'clear', 'parse') if deep else ('index', 'unindex', 'clear'), **X),
        ]
    out.append(S('default text index', 'real_text', '%d operations on TextIndex()' % two + AB, C, kind='okapi', n=two,
                 default=True, ops=('index', 'unindex'), **X))
    return out


AFTER = h_durable.AFTER
ASSUMPTIONS['D02'] = [
    'ZODB is modelled as in D01; an abort gives the objects flagged as changed their last committed state again and '
    'leaves all others as they are in memory. Replays use real ZODB with MappingStorage.']
SCENARIOS = {'D01': d01, 'D02': d02}
