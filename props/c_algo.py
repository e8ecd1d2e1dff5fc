import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_algo.py')


def S(name, fn, bounds, covers=(), **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=None)


def n01(tier):
    deep = tier == 'thorough'
    return [
        S('add', 'nbest', 'N 1..4, %d symbolic int scores added' % (6 if deep else 5), ('dropped',),
          n=6 if deep else 5, maxcap=4, ops=('add',)),
        S('mixed', 'nbest', 'N 1..3, %d operations out of add, addmany (0 or 2 pairs), pop_smallest'
          % (5 if deep else 4), ('dropped', 'pop', 'pop empty', 'many'), n=5 if deep else 4, maxcap=3,
          ops=('add', 'many', 'pop')),
        S('reals', 'nbest', 'N 1..2, 4 symbolic real scores', ('dropped',), n=4, maxcap=2, ops=('add', 'pop'),
          kind='real'),
        S('same items', 'nbest_same', 'N 1..2, %d operations, adding one of two items that can be neither hashed nor '
          'ordered with a symbolic int score, or popping' % (5 if deep else 4), ('dropped', 'pop'), n=5 if deep else 4,
          maxcap=2),
        S('many items', 'nbest_long', 'N 4, 5 or 8: N-1 to N+1 items in ascending or descending order of score (equal '
          'ones possible), then %d with any score, then 2 pops' % (2 if deep else 1), ('dropped',), caps=(4, 5, 8),
          free=2 if deep else 1, pops=2),
        S('N', 'nbest_bad', 'N any int', ('bad', 'good')),
    ]


def s01(tier):
    deep = tier == 'thorough'
    out = []
    for op in ('union', 'intersection'):
        none = op == 'intersection'
        out += [
            S(op + ' 0-2', 'setops', '0 to 2 buckets of 0-2 entries, symbolic keys and values 1..9, weights 1, 2, 0.5',
              ('several keys', 'empty'), op=op, n=2, sizes=(0, 1, 2), none=none),
            S(op + ' 3', 'setops', '3 mappings (bucket, tree, bucket) of %s entries' % ('0-2' if deep else '1-2'),
              ('several keys',), op=op, n=3, sizes=(0, 1, 2) if deep else (1, 2), types=('Bucket', 'BTree'),
              weights=(1, 2) if deep else (2,), none=False),
            S(op + ' 4', 'setops', '4 mappings of 1 entry', (), op=op, n=4, sizes=(1,), weights=(3,), none=none),
            S(op + ' none', 'setops', 'no mapping', (), op=op, n=0, sizes=(1,)),
            S(op + ' one', 'setops', '1 mapping of 0-3 entries', (), op=op, n=1, sizes=(0, 1, 3), types=('BTree',)),
            S(op + ' reals', 'setops', '2 mappings of 1-2 entries, unbounded real values, weights 1 and 2', (), op=op,
              n=2, sizes=(1, 2), weights=(1, 2), real=True),
            S(op + ' 64', 'setops', '2 mappings of family64, 1 entry', (), op=op, n=2, sizes=(1,), bits=64,
              types=('BTree', 'Bucket')),
        ]
    return out


def w01(tier):
    deep = tier == 'thorough'
    return [
        S('lists', 'widcode', 'lists of 0 to %d ids, each any int from 0 to 2**28-1' % (4 if deep else 3),
          ('four characters',), lens=(0, 1, 2, 3, 4) if deep else (0, 1, 2, 3)),
        S('injective', 'widcode_find', 'any two ids'),
    ]


def r01(tier):
    deep = tier == 'thorough'
    return [
        S('small m', 'rice', 'm 0..3, lists of 0-2 values with quotients 0..2 and any remainder', (), ms=(0, 1, 2, 3),
          lens=(0, 1, 2), maxq=2),
        S('m 0 and 1', 'rice', 'm 0 or 1, lists of 3-4 values with quotients 0..3', (), ms=(0, 1), lens=(3, 4),
          maxq=3 if deep else 1),
        S('middle m', 'rice', 'm 4..8, 1 value with quotient 0..3, any remainder', (), ms=(4, 5, 6, 7, 8),
          lens=(1,), maxq=3),
        S('large m', 'rice', 'm 9..16, 1 or 2 values with quotient 0..1; remainders from the lowest, middle '
          'and highest %d' % (16 if deep else 4), (), ms=(9, 12, 15, 16), lens=(1, 2), maxq=1,
          window=32 if deep else 8),
        S('every m', 'rice', 'm 0..16, 1 value, quotient 0..2, remainders from the lowest, middle and highest 16',
          (), ms=tuple(range(17)), lens=(1,), maxq=2, window=32),
        S('bad values', 'rice_bad', 'any value below 1 after one value 1..3', (), ms=(0, 1, 6, 16)),
        S('bad m', 'rice_badm', 'any m outside 0..16'),
        S('bits', 'bits', '0 to 10 appended symbolic bits', (), lens=(0, 1, 7, 8, 9) + ((10, 11) if deep else ())),
        S('pickled', 'pickled', 'm %s; 0-1 values, pickled, then 1 more value' % ('0, 1, 3, 6, 8 or 15' if deep else '0, 2 or 7'),
          (), ms=(0, 1, 3, 6, 8, 15) if deep else (0, 2, 7), lens=(0, 1), more=1),
        S('pickled more', 'pickled', 'm 0 or 1; 0-3 values, pickled, then %d more values' % (3 if deep else 1), (),
          ms=(0, 1), lens=(0, 1, 2, 3), more=3 if deep else 1),
        S('many bits', 'bits_long', 'up to 41 bits in 4 patterns, 2 of them symbolic (any place)', (),
          lens=(16, 17, 23, 25, 33, 41) if deep else (17, 25, 33)),
        S('many values', 'rice_long', 'm %s, %s values, the last 2 symbolic' % (('0..3 or 6', '6 to 20') if deep else ('0, 1 or 3', '6 or 11')), (),
          ms=(0, 1, 2, 3, 6) if deep else (0, 1, 3), lens=(4, 9, 18) if deep else (4, 9)),
    ]


def r02(tier):
    deep = tier == 'thorough'
    return [
        S('short', 'deltas', 'lists of 1-2 elements, any first element, delta 1..256', (), lens=(1, 2),
          ranges=((1, 256),)),
        S('three', 'deltas', '3 elements, deltas 1..4, 62..67 or 127..130', (), lens=(3,),
          ranges=((1, 4), (62, 67), (127, 130))),
        S('four', 'deltas', '4 elements, deltas 1..3 or 64..65', (), lens=(4,), ranges=((1, 3), (64, 65))),
        S('far', 'deltas', '3 elements, deltas 1..2, 6400..6401 or 19200..19201', (), lens=(3,), ranges=((1, 2), (6400, 6401), (19200, 19201))),
        S('six', 'deltas', '5-6 elements, deltas 1..2', (), lens=(5, 6), ranges=((1, 3 if deep else 2),)),
    ]


SCENARIOS = {'N01': n01, 'S01': s01, 'W01': w01, 'R01': r01, 'R02': r02}
