import os

from symex.runner import Scenario

from . import h_pure

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_pure.py')

ASSUMPTIONS = {'U01': ['Caches that no public call shows do not count as a change.']}
QUERIES = ('aa', 'aa bb', 'aa OR zz', 'aa NOT bb', '"aa bb"', '"bb aa" OR aa', 'a*', 'a* AND b?', 'zz', 'zz AND aa',
           'the', 'aa the', 'bb AND NOT a*', '(aa OR bb) AND aa', 'qq*', 'aa-bb', 'aa -bb')
TREES = QUERIES + ('aa AND bb AND NOT zz', 'aa b* NOT (zz OR qq) NOT "bb bb"', 'aa OR (bb b* -zz) OR (bb AND aa NOT aa)',
                   'the OR aa OR bb OR "aa bb"')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


def u01(tier):
    deep = tier == 'thorough'
    n = 3 if deep else 2
    out = [
        S('field range', 'field', '%d operations, any 32-bit ids and integer values; any range' % n, ('found',), n=n,
          kind='int', query='apply', ops=('index', 'unindex')),
        S('field sort', 'field', '2 documents; %d ids as list, tuple, Set, TreeSet or BTree, both directions' % (n - 1),
          ('found',), n=2, kind='int', query='sort', forms=('list', 'tuple', 'Set', 'TreeSet', 'BTree'),
          limits=(None, 1, 2), ops=('index',), nq=n - 1),
        S('field sort result', 'field', '%d documents; the result of another query is sorted' % n, ('found',), n=n,
          kind='int', query='sort', forms=('result',), limits=(None, 1, 2), ops=('index',), nq=0),
        S('field lazy', 'field', 'the same with the lazy strategy', ('found',), n=2, kind='int',
          query='sort', forms=('result', 'list'), limits=(None, 1), ops=('index',), override='_use_lazy', nq=n - 1),
        S('field nbest', 'field', 'the same with the n-best strategy', ('found',), n=2, kind='int',
          query='sort', forms=('result', 'list'), limits=(1, 2), ops=('index',), override='_use_nbest', nq=n - 1),
        S('keyword', 'keyword', '2 documents with up to 1%s keywords, queries of 1-2 keywords' % (
            '-2' if deep else ''), ('found',), n=2, sizes=(1, 2) if deep else (1,), kind='ab', qsizes=(1, 2),
          ops=('index',) if not deep else ('index', 'unindex')),
        S('keyword 2', 'keyword', '1 document with 2 keywords, queries of 0-2 keywords', ('found',), n=1, sizes=(2,),
          kind='abc', qsizes=(0, 2), forms=('list', 'dict+')),
        S('keyword string', 'keyword', 'a string as query', ('found',), n=2, sizes=(1,), kind='ab', qsizes=(1,),
          ops=('index',), forms=('str',)),
        S('keyword case', 'keyword', 'case-insensitive index', ('found',), n=2, sizes=(1,), kind='case1',
          qsizes=(1, 2), norm='lower', ops=('index',), forms=('list', 'dict+')),
        S('keyword trees', 'keyword', 'threshold 1 and optimize()', ('found',), n=2, sizes=(1,), kind='ab',
          qsizes=(1, 2), threshold=1, optimize=True, ops=('index',), forms=('list', 'dict+')),
        S('topic', 'topic', '2 filters, %d operations, 7 queries' % n, ('found',), n=n,
          forms=('list', 'tuple', 'dict') if deep else ('list', 'dict')),
        S('topic 3', 'topic', '3 filters, 2 documents', ('found',), n=2, names=('f', 'g', 'h'), forms=('list',)),
    ]
    out += [
        S('field bulk', 'field', '40 documents and one of 3 ids with a value among 3; any lower bound', ('found',), n=1, kind='int',
          query='apply', ops=('index',), preload=40),
        S('field sort bulk', 'field', '40 documents and one of 3 ids with a value among 3; 21 ids or all documents, 4 limits',
          ('found',), n=1, kind='int', query='sort', forms=('result', 'list', 'Set'), limits=(None, 1, 15, 60),
          ops=('index',), nq=1, preload=40),
        S('keyword bulk', 'keyword', '70 documents and one of 3 ids, default threshold', ('found',), n=1, sizes=(1, 2),
          kind='ab', qsizes=(1, 2), ops=('index',), preload=70, forms=('list', 'dict+')),
        S('keyword bulk optimize', 'keyword', '70 documents and one of 3 ids, optimize() with a threshold of 100',
          ('found',), n=1, sizes=(1, 2), kind='ab', qsizes=(1, 2), ops=('index',), preload=70, forms=('list',),
          threshold=100, optimize=True),
        S('topic bulk', 'topic', '40 documents and one of 3 ids', ('found',), n=1, forms=('list',), preload=40),
    ]
    for kind in ('okapi', 'cosine'):
        out.append(S(kind + ' bulk', 'text', '12 documents and one of any word up to 300, queries of 1-2 words', ('found',), kind=kind, lens=((1,),),
                     wmax=300, preload=12, nq=(1, 2) if deep else (1,), calls=('search', 'phrase', 'glob', 'weight') if deep
                     else ('search', 'weight')))
    for kind in ('okapi', 'cosine'):
        out.append(S(kind, 'text', '2 documents of 0-2 and 1 words, any ids up to 127, queries of 1-2 words or word '
                     'ids 0 (unknown)', ('found',), kind=kind, lens=((0, 2), (1,)) if not deep else ((0, 1, 2), (1, 2))))
        out.append(S(kind + ' trees', 'text', 'the same stored in BTrees, after an unindex', ('found',), kind=kind,
                     lens=((1,), (2,), (1,)), cutoff=0, un=True, nq=(1,) if not deep else (1, 2)))
        out.append(S(kind + ' any query', 'parse', 'any query text of 0-%d characters out of 6' % (4 if deep else 3),
                     ('found',), kind=kind, texts=(('aa bb', 'a b'), ('b',)),
                     length=(0, 1, 2, 3, 4) if deep else (0, 1, 2, 3), alphabet='ab*- "',
                     calls=('apply', 'parse') if deep else ('apply',)))
        out.append(S(kind + ' queries', 'parse', '%d queries' % len(QUERIES), ('found',), kind=kind,
                     texts=(('aa bb', 'aa', 'bb aa', 'the'), ('bb', 'aa aa bb')), length=(), alphabet='',
                     queries=QUERIES, calls=('apply', 'parse')))
        out.append(S(kind + ' trees of queries', 'parse', 'the trees of %d queries, executed' % len(TREES), ('found',), kind=kind,
                     texts=(('aa bb', 'aa', 'bb aa', 'the'), ('bb', 'aa aa bb')), length=(), alphabet='',
                     queries=TREES, calls=('execute',)))
    out.append(S('lexicon', 'parse', 'any term of 0-2 characters out of 4', ('found',), kind='okapi',
                 texts=(('aa bb', 'a b'),), length=(0, 1, 2), alphabet='ab* ', calls=('terms', 'ids', 'glob', 'search')))
    return out


SCENARIOS = {'U01': u01}
