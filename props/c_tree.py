import os

from symex.runner import Scenario

from . import h_tree

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_tree.py')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


def e01(tier):
    deep = tier == 'thorough'
    sh = h_tree.SHAPES
    out = [
        S('trees', 'tree', '%d tree shapes with up to 3 leaves, 1 document, any membership, scores 1..1000' % len(sh),
          ('in', 'out'), shapes=sh, docs=1),
        S('left out', 'tree', 'the same, leaves may be stop words', ('in', 'out', 'left out'), shapes=sh, docs=1,
          none=True),
        S('two documents', 'tree', 'the shapes with up to 3 leaves, 2 documents with any 32-bit ids', ('in', 'out'),
          shapes=sh if deep else sh[:9] + sh[12:13], docs=2, symdocs=True),
        S('kinds', 'tree', '4 shapes, words, phrases and globs, real scores', ('in', 'out'), shapes=sh[:4], docs=1,
          real=True, kinds=('atom', 'phrase', 'glob')),
        S('four leaves', 'tree', '%d shapes with 4 leaves, 1 document%s' % (
            len(h_tree.DEEP), ', leaves may be stop words' if deep else ''), ('in', 'out'), shapes=h_tree.DEEP, docs=1,
          none=deep),
        S('five leaves', 'tree', '%d shapes with 4-5 leaves, up to 4 negated, 1 document' % len(h_tree.WIDE), ('in', 'out'),
          shapes=h_tree.WIDE, docs=1, none=deep),
        S('64', 'tree', '4 shapes, 64-bit ids, 2 documents, buckets', ('in', 'out'), shapes=sh[:4], docs=2, bits=64,
          symdocs=True, wrap='Bucket'),
        S('not', 'bare_not', 'one tree'),
        S('okapi', 'real_index', '2 documents of 0-%d words out of 2, %d queries on a real Okapi index'
          % (2 if deep else 1, len(h_tree.QUERIES)), ('in',), kind='okapi', queries=h_tree.QUERIES, ndocs=2,
          maxlen=(0, 1, 2) if deep else (1, 2)),
        S('okapi (C)', 'real_index', 'the same, scored by okascore.c', ('in',), oka='c', kind='okapi',
          queries=h_tree.QUERIES, ndocs=2, maxlen=(0, 1, 2) if deep else (1, 2)),
        S('cosine', 'real_index', 'the same, cosine index', ('in',), kind='cosine', queries=h_tree.QUERIES, ndocs=2,
          maxlen=(0, 1, 2) if deep else (1, 2)),
    ]
    return out


SCENARIOS = {'E01': e01}
