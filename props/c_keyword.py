import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_keyword.py')


def S(name, fn, bounds, covers=(), **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=None)


IU = ('index', 'unindex')


Q3 = 'queries of 0-2 symbolic keywords, and/or'


def k01(tier):
    deep = tier == 'thorough'
    k = 'abc' if deep else '<ab'
    out = [
        S('letters', 'search_history',
          '3 operations (index_doc, unindex_doc, clear), symbolic 32 bit docids, keyword lists of length 0-2 over '
          'symbolic letters %s (< : ascending); query of 0-2 symbolic keywords, and/or' % k,
          ('reindex', 'unindex known', 'unindex unknown', 'clear', 'found', 'several found'),
          n=3, sizes=(0, 1, 2), kind=k, qkind='abc', qsizes=(0, 1, 2), forms=('dict+',)),
        S('three words', 'search_history', '2 operations, ascending keyword lists of length 2-3 over symbolic letters '
          'abc; query of 3 symbolic keywords', ('found', 'several found'), n=2, sizes=(2, 3), kind='<abc', qkind='abc',
          qsizes=(3,), forms=('search',), ops=IU),
        S('forms', 'search_history', '2 operations; all query forms', ('found',),
          n=2, sizes=(1, 2), kind='ab', qsizes=(0, 1, 2)),
        S('ints', 'search_history', '2 operations; keywords are unbounded ints', ('found',),
          n=2, sizes=(1, 2), kind='int', qsizes=(0, 1, 2), forms=('dict+',), ops=IU),
        S('many', 'many', 'a document with the first 1-%d of %d keywords, one with any of them, a third operation; any ids; '
          'queries of 1-%d keywords' % ((5, 6, 6) if deep else (4, 5, 5)), ('reindex', 'unindex'),
          letters='abcdef' if deep else 'abcde'),
        S('bad', 'bad_queries', 'any operator string of length 0-3 over andorAN; seq any string of length 0-2'),
    ]
    if deep:
        out.append(S('four steps', 'search_history', '4 operations; keyword lists of length 0-2, ascending, over ab; '
                     'query of 1-2 keywords', ('found', 'reindex'), n=4, sizes=(0, 1, 2), kind='<ab', qsizes=(1, 2),
                     forms=('search',), ops=IU))
    return out


def k02(tier):
    deep = tier == 'thorough'
    out = [
        S('letters', 'stats_history', '3 operations; keyword lists of length 0-2 over symbolic letters abc',
          ('reindex', 'reindex with nothing', 'unindex known', 'unindex unknown', 'clear'),
          n=3, sizes=(0, 1, 2), kind='abc'),
        S('dropping', 'stats_history', '3 operations, normalize() drops x; keyword lists of length 0-2 over abx',
          ('reindex with nothing',), n=3, sizes=(0, 1, 2), kind='abx' if deep else '<abx', norm='drop', ops=IU),
        S('merging', 'stats_history', '3 operations, normalize() maps b to a and drops x, returns a set',
          ('reindex with nothing',), n=3, sizes=(1, 2), kind='abcx' if deep else '<abx', norm='dropset', ops=IU),
        S('many', 'many', 'a document with the first 1-%d of %d keywords, one with any of them, a third operation; any ids; '
          'queries of 1-%d keywords' % ((5, 6, 6) if deep else (4, 5, 5)), ('reindex', 'unindex'),
          letters='abcdef' if deep else 'abcde'),
        S('many dropping', 'many', 'as before, normalize() drops one of the keywords', ('reindex', 'unindex'),
          letters='abxd', norm='drop'),
        S('generator', 'stats_history', '2 operations, normalize() returns a generator dropping x',
          (), n=2, sizes=(1, 2), kind='ax', norm='gen', ops=IU),
    ]
    if deep:
        out.append(S('four steps', 'stats_history', '4 operations; ascending keyword lists of length 0-2 over ab', (),
                     n=4, sizes=(0, 1, 2), kind='<ab', every=False))
    return out


def k03(tier):
    deep = tier == 'thorough'
    return [
        S('symbolic threshold', 'search_history',
          '4 operations incl. setting tree_threshold to any int and optimize(); 1 keyword per document',
          ('threshold', 'optimize', 'found'), n=5 if deep else 4, sizes=(1,), kind='ab', qsizes=(1,), forms=('dict+',),
          stats=True, threshold='sym', ops=('index', 'unindex', 'threshold', 'optimize')),
        S('default threshold', 'preload', '63 documents with one common keyword, then symbolic operations around '
          'the default threshold of 64, docids 2-4', (), n=63, common='a', sizes=(1, 2), kind='<ab',
          steps=3 if deep else 2, ops=('index', 'unindex', 'optimize'), ids=(2, 4)),
        S('sizes', 'sizes', '1-9 documents, threshold 1-5 or 64, threshold 1-5 or 64, optimize(), %d operations'
          % (2 if deep else 1), (), n=tuple(range(1, 10)), thresholds=(1, 2, 3, 4, 5, 64), steps=2 if deep else 1),
        S('at the threshold', 'preload', '4 documents, threshold 4, symbolic operations (crossing it both ways)',
          (), n=4, common='a', sizes=(0, 1), kind='ab', steps=3 if deep else 2, threshold=4,
          ops=('index', 'unindex', 'optimize', 'threshold'), op='or'),
        S('at the threshold, 3 steps', 'preload', '4 documents, threshold 4, 3 symbolic operations, docids 2-4',
          (), n=4, common='a', sizes=(1,), kind='ab', steps=3, threshold=4, ids=(2, 4),
          ops=('index', 'unindex', 'optimize', 'threshold')),
    ]


def k04(tier):
    deep = tier == 'thorough'
    return [
        S('letters', 'search_history', '2 operations; keyword lists of length 0-2 over words of length 1 from aAbB; '
          'query of 0-2 words, every form', ('found',), n=2, sizes=(1, 2), kind='case1', qsizes=(0, 1, 2),
          norm='lower', stats=True, ops=IU),
        S('words', 'search_history', '2 operations; words of length 1-2 over aAbB', ('found',), n=2, sizes=(1,),
          kind='case', qsizes=(1, 2), norm='lower', stats=True, ops=IU, forms=('search',)),
        S('unicode', 'search_history', '1 operation; words of length 1-2 with letters whose lower case is longer, '
          'context dependent or not ASCII', ('found',), n=1, sizes=(1, 2) if deep else (1,), kind='unicode',
          qsizes=(1,), norm='lower', stats=True, ops=IU, forms=('search',)),
        S('many', 'many', 'a document with the first 1-4 of the keywords a B A b c, one with any of them, a third operation',
          ('reindex', 'unindex'), letters='aBAbc', norm='lower'),
        S('counts', 'stats_history', '3 operations; words of one letter from aAbB', ('reindex',), n=3, sizes=(0, 1, 2),
          kind='case1' if deep else '<case1', norm='lower', ops=IU),
    ]


SCENARIOS = {'K01': k01, 'K02': k02, 'K03': k03, 'K04': k04}
