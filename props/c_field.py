import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_field.py')


def S(name, fn, bounds, covers=(), **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=None)


def f01(tier):
    H = 'symbolic docids of the whole 32 bit range, one symbolic operation per step (index_doc, unindex_doc, clear)'
    out = [
        S('ints', 'apply_history', '4 operations; ' + H + '; symbolic unbounded int values and range ends',
          ('reindex', 'unindex known', 'unindex unknown', 'clear', 'several ids', 'no ids'), n=4, kind='int'),
        S('open ends', 'apply_history', '3 operations; int values; each end open or symbolic',
          ('several ids',), n=3, kind='int', ends='all'),
        S('reals', 'apply_history', '3 operations; real values', ('several ids',), n=3, kind='real'),
        S('strings', 'apply_history', '3 operations; values are strings of length 0-2 over abc',
          ('several ids',), n=3, kind='str2', ops=('index', 'unindex')),
        S('tuples', 'apply_history', '3 operations; values are pairs of ints', ('several ids',), n=3, kind='tuple',
          ops=('index', 'unindex')),
        S('none', 'apply_history', '3 operations; values None or int; both ends given', (), n=3, kind='none',
          ops=('index', 'unindex')),
        S('bad queries', 'apply_errors', 'queries that are not a pair', ()),
    ]
    return out


def f02(tier):
    return [
        S('ints', 'stats_history', '4 operations, counts checked after each; symbolic docids and int values',
          ('reindex', 'unindex known', 'unindex unknown', 'clear'), n=4, kind='int'),
        S('strings', 'stats_history', '3 operations; string values of length 1', (), n=3, kind='str'),
        S('none', 'stats_history', '3 operations; values None or int', (), n=3, kind='none'),
    ]


def f03(tier):
    return [
        S('non-lazy', 'sort_docs', '4 documents, symbolic ints, all requested; limit None or symbolic 1..5',
          ('limited', 'several sorted'), n=4, kind='int', nq=4, limits=(None, 'sym'), maxlimit=5),
        S('nbest', 'sort_docs', '5 documents with symbolic ints, 4 plus 1 unindexed id requested, limit 1',
          ('limited',), n=4, kind='int', nq=4, extra=(9,), limits=(1,)),
        S('lazy', 'sort_docs', '3 documents with symbolic ints, 3 plus 2 unindexed ids requested (lazy strategy), limit '
          'None or symbolic 1..4', ('limited', 'several sorted', 'unindexed id requested'), n=3, kind='int', nq=3,
          extra=(9, -5), limits=(None, 'sym'), maxlimit=4),
        S('lazy part', 'sort_docs', '4 documents with symbolic ints, 2 of them and 4 unindexed ids requested (lazy '
          'strategy)', ('several sorted', 'unindexed id requested'), n=4, kind='int', nq=2, extra=(9, -5, 11, 12),
          limits=(None, 2)),
        S('nbest 2', 'sort_docs', '9 documents: 7 symbolic ints in strictly ascending or descending order, then %d in any order; '
          'limit 2' % 2, ('limited',), n=9, kind='int', nq=9, ordered=7, limits=(2,)),
        S('nbest 3', 'sort_docs', '14 documents: 13 symbolic ints in strictly ascending or descending order, then one, 2 '
          'unindexed ids; limit 3', ('limited', 'unindexed id requested'), n=14, kind='int', nq=14, ordered=13, limits=(3,), extra=(-3, 99)),
        S('forced', 'sort_docs', '3 documents, symbolic ints, lazy strategy forced', ('limited',), n=3, kind='int', nq=3,
          limits=(None, 1, 2), override='_use_lazy'),
        S('forced nbest', 'sort_docs', '3 documents, symbolic ints, n-best strategy forced', ('limited',), n=3,
          kind='int', nq=3, limits=(1, 2, 5), override='_use_nbest'),
        S('nbest strings', 'sort_docs', '3 documents, strings of length 0-1, n-best strategy forced', (), n=3,
          kind='str', nq=3, limits=(2,), override='_use_nbest'),
    ] + [
        S('ids as ' + k, 'sort_docs', '2 documents, symbolic ints, 1 unindexed id', (), n=2, kind='int', nq=2,
          extra=(7,), limits=(None, 1), qkind=k) for k in ('list', 'tuple', 'gen', 'treeset', 'btree', 'dups')
    ] + [
        S('repeated list', 'sort_repeated', '3 documents, any ints; a list of 3 of their ids or an unindexed one in any '
          'order, repeated or not', ('repeated',), n=3, k=3),
        S('repeated tuple', 'sort_repeated', '2 documents, any ints; a tuple of 2 or 1 ids', ('repeated',), n=2, k=2,
          qkind='tuple'),
        S('repeated nbest', 'sort_repeated', '3 documents; a list of 3 ids, n-best strategy forced', ('repeated',), n=3,
          k=3, limits=(1, 2), override='_use_nbest'),
        S('history', 'sort_history', '3 symbolic operations, 2 symbolic ids requested', (), n=3, kind='int', nq=2),
        S('strings', 'sort_docs', '2 documents with string values, 1 unindexed id', (), n=2, kind='str', nq=2,
          extra=(7,)),
        S('limit errors', 'sort_errors', 'limit any int below 1, 0 or 1 documents', ()),
    ]


SCENARIOS = {'F01': f01, 'F02': f02, 'F03': f03}
