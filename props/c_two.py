import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_two.py')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


TEXTS = ('aa bb', 'bb the AA', 'cc')
QUERIES = ('aa', '"bb aa"', 'b*', 'aa NOT bb', 'cc OR aa')


def v01(tier):
    deep = tier == 'thorough'
    n = 4 if deep else 3
    H = '%d operations, the first on one, the second on the other, the rest on any; ' % n
    B = ('both',)
    return [
        S('field', 'field', H + 'any docids and ints', B + ('same docid', 'unindex', 'clear'), n=n),
        S('field 32 64', 'field', '3 operations; one index of each family', B, n=3, bits=(32, 64),
          ops=('index', 'unindex'), reverses=(False,)),
        S('keyword', 'keyword', H + 'a plain and a case-insensitive index, any docids, keywords of one letter out of aAbB',
          B + ('same docid',), n=n, sizes=(1,), ops=('index', 'unindex', 'clear')),
        S('keyword thresholds', 'keyword', '3 operations on two indexes, one with trees from 1 document on, thresholds '
          'changed, optimize()', B, n=3, sizes=(1,), kind='a', norms=('none', 'none'), thresholds=(None, 1),
          ops=('index', 'unindex', 'optimize', 'threshold')),
        S('keyword 32 64', 'keyword', '2 or 3 operations; one index of each family', B, n=2, sizes=(1, 2), kind='ab',
          norms=('none', 'none'), bits=(32, 64)),
        S('topic', 'topic', '%d operations, ' % (n + 1) + H[14:] + 'filters of one name with different expressions, changed expressions', B + (
            'express', 'clearFilters', 'delFilter'), n=n + 1),
        S('topic 32 64', 'topic', '3 operations; one index of each family', B, n=3, bits=(64, 32),
          ops=('index', 'unindex')),
        S('okapi cosine', 'words', H + 'Okapi and cosine index with one lexicon, 3 docids, 1 word or 2', B, n=n,
          kinds=('okapi', 'cosine'), ids=(5, 6) if not deep else (5, 6, 7), sizes=(1,) if not deep else (1, 2)),
        S('okapi okapi', 'words', '3 operations; Okapi indexes of both families', B, n=3, kinds=('okapi', 'okapi'),
          bits=(32, 64), ids=(5, 6), sizes=(1, 2) if deep else (1,), shared=False),
        S('cosine cosine', 'words', '2 operations; cosine indexes of both families', B, n=2, kinds=('cosine', 'cosine'),
          bits=(64, 32), ids=(5, 6), sizes=(1, 2)),
        S('text', 'full', '%d operations on two text indexes made with no arguments; %d texts, %d queries' % (
            n, len(TEXTS), len(QUERIES)), B, n=n, texts=TEXTS, queries=QUERIES, setups=('default', 'default')),
        S('text shared', 'full', '%d operations on two text indexes with one lexicon' % n, B, n=n, texts=TEXTS,
          queries=QUERIES, setups=('okapi', 'cosine'), shared=True),
        S('lexicon', 'lexicon', '%d calls on two lexicons, 1-2 words of one letter' % n, ('known to one', 'known to both'),
          n=n),
        S('parsers', 'parsers', '%d queries to two parsers with one lexicon' % n, ('ignored',), n=n,
          choices=('aa', 'the', 'aa the', 'of aa -the', '(', 'aa OR (the of)')),
        S('nbest', 'nbest', '%d items with any scores to two objects' % (n + 1), ('left out',), n=n + 1),
        S('rice', 'rice', '%d values to two codes' % n, ('both',), n=n),
    ]


SCENARIOS = {'V01': v01}
