import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_text.py')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


SHORT = 'word ids 1..127, any docids; searches by every word, two words, globs%s'
HIST = ('reindex', 'unindex', 'found')


def x01(tier):
    deep = tier == 'thorough'
    out = []
    for k in ('okapi', 'cosine'):
        out += [
            S(k + ' two steps', 'history', 'index 0-2 words, then index 0-2 words, unindex or clear; ' + SHORT % ', phrases',
              HIST + ('clear', 'unindex unknown'), kind=k, steps=(('0', '1', '2'), ('0', '1', '2', 'u', 'c')),
              phrases=True),
            S(k + ' three steps', 'history', 'index 1-%d words; index 1 word, unindex or clear; index 0-1 words or '
              'unindex; ' % (2 if deep else 1) + SHORT % '', HIST + ('clear',), kind=k,
              steps=(('1', '2') if deep else ('1',), ('0', '1', 'u', 'c'), ('0', '1', 'u')), phrases=deep),
            S(k + ' low threshold words', 'history', 'DICT_CUTOFF 1: index 1 word, then 3 words, then 1 word; 2 word ids, 2 docids',
              ('found', 'reindex'), kind=k, steps=(('1',), ('3',), ('1', 'u')), cutoff=1, wmax=2, dmax=2),
            S(k + ' reindex', 'history', 'index 2-%d words, then index 2 words; ' % (3 if deep else 2) +
              SHORT % ', phrases', ('reindex', 'found'), kind=k, steps=(('2', '3') if deep else ('2',), ('2',)),
              phrases=True),
            S(k + ' reindex 3', 'history', 'reindexing one document: 3 words, then 2 words', ('reindex', 'found'), kind=k,
              steps=(('3',), ('2',)), dmax=1, phrases=deep),
            S(k + ' threshold', 'history', '9 documents with one word, then 2 x (index 1 word or unindex) on '
              'one of the first, another or a new one', ('found', 'unindex', 'reindex'), kind=k,
              steps=(('1', 'u'), ('1', 'u')), preload=9, ids=(1000, 1007, 2000), wmax=2),
            S(k + ' low threshold', 'history', 'DICT_CUTOFF 1: index 1 word, index 1 word, index 1 word or unindex',
              ('found',), kind=k, steps=(('1',), ('1',), ('1', 'u')), cutoff=1, wmax=3),
            S(k + ' low threshold 2', 'history', 'DICT_CUTOFF 2: 2 documents, then 2 x (index 1 word, unindex or clear)',
              ('found', 'clear'), kind=k, steps=(('1', 'u', 'c'), ('1', 'u', 'c')), cutoff=2, preload=2, wmax=2,
              dmin=1000, dmax=1003),
            S(k + ' large ids', 'history', 'word ids up to 2**28-1, 64-bit docids: index 1 word, then index 1 word or '
              'unindex', ('found', 'reindex'), kind=k, steps=(('1',), ('1', 'u')), wmax=2 ** 28 - 1, bits=64,
              phrases=True),
        ]
        if deep:
            out += [
                S(k + ' four steps', 'history', '4 operations: index 1 word, unindex, clear; docids 1..3, word ids 1..3',
                  HIST + ('clear',), kind=k, steps=(('1',), ('1', 'u', 'c'), ('1', 'u'), ('0', '1', 'u')), dmax=3, wmax=3),
                S(k + ' threshold 11', 'history', '11 documents with one word, then index 1 word or unindex, 3 times',
                  ('found', 'unindex', 'reindex'), kind=k, steps=(('1', 'u'), ('1', 'u'), ('1', 'u')), preload=11,
                  ids=(1000, 1007, 2000, 2001), wmax=2),
            ]
    for k in ('okapi', 'cosine'):
        out.append(S(k + ' threshold words', 'history', '10 documents with one word, then index 1-3 words and index 1 word or unindex, '
                     'on one of the first or a new one', ('found', 'reindex'), kind=k, steps=(('1', '3'), ('1', 'u')),
                     preload=10, ids=(1000, 2000), wmax=2))
    return out


COUNTS = tuple(range(1, 13)) + (20, 130, 260, 1100)
MANY = COUNTS + (17000, 33000, 66000)


def x02(tier):
    deep = tier == 'thorough'
    out = [
        S('documents', 'formula', '2 documents of 0-%d words, word ids 1..127, one-word query' % (3 if deep else 2),
          ('hit', 'miss'), kind='okapi', ndocs=2, maxlen=3 if deep else 2),
        S('two words', 'formula', '%d documents of 0-%d words, two-word query' % ((2, 2) if deep else (2, 1)),
          ('hit', 'miss'), kind='okapi', ndocs=2, maxlen=2 if deep else 1, terms=2),
        S('three documents', 'formula', '3 documents of 0-%d words, one-word query' % (2 if deep else 1), ('hit', 'miss'),
          kind='okapi', ndocs=3, maxlen=2 if deep else 1),
        S('long document', 'formula', '1 document of 0-%d words, one-word query' % (6 if deep else 5), ('hit', 'miss'),
          kind='okapi', ndocs=1, maxlen=6 if deep else 5),
        S('state', 'okapi_state', 'stored index, any f, len(D), total length, number of documents up to 10**6 (10**9)',
          ('state',)),
        S('state tree', 'okapi_state', 'the same, 2 documents with the word, kept in a BTree', ('state',), tree=True,
          nhits=2),
        S('counts', 'counts', '1 document with a word %d different numbers of times up to %d and up to 2 others, 1 other '
          'document' % (len(MANY if deep else COUNTS), (MANY if deep else COUNTS)[-1]), ('counts',), kind='okapi',
          counts=MANY if deep else COUNTS),
        S('state and steps', 'okapi_state', 'the same state, then a document of 1-2 words is indexed, reindexed or unindexed',
          ('state', 'steps'), steps=True),
        S('state 3', 'okapi_state', 'the same, 3 documents with the word', ('state',), nhits=3),
        S('bulk', 'formula_bulk', '12 documents of 1-9 words, then %d operations; 4 queries' % (3 if deep else 2), ('hit', 'miss', 'index', 'unindex', 'more'),
          kind='okapi', n=12, steps=3 if deep else 2),
    ]
    return out


def x03(tier):
    deep = tier == 'thorough'
    return [
        S('documents', 'formula', '2 documents of 0-%d words, word ids 1..127, one-word query' % (3 if deep else 2),
          ('hit', 'miss'), kind='cosine', ndocs=2, maxlen=3 if deep else 2),
        S('two words', 'formula', '%d documents of 0-%d words, two-word query' % ((2, 2) if deep else (2, 1)),
          ('hit', 'miss'), kind='cosine', ndocs=2, maxlen=2 if deep else 1, terms=2),
        S('three documents', 'formula', '3 documents of 0-%d words, one-word query' % (2 if deep else 1), ('hit', 'miss'),
          kind='cosine', ndocs=3, maxlen=2 if deep else 1),
        S('long document', 'formula', '1 document of 0-%d words, one-word query' % (6 if deep else 5), ('hit', 'miss'),
          kind='cosine', ndocs=1, maxlen=6 if deep else 5),
        S('state', 'cosine_state', 'stored index, any weights and number of holders up to 3', ('state',), nhits=2),
        S('counts', 'counts', '1 document with a word %d different numbers of times up to %d and up to 2 others, 1 other '
          'document' % (len(MANY if deep else COUNTS), (MANY if deep else COUNTS)[-1]), ('counts',), kind='cosine',
          counts=MANY if deep else COUNTS),
        S('bulk', 'formula_bulk', '12 documents of 1-9 words, then %d operations; 4 queries' % (3 if deep else 2), ('hit', 'miss', 'index', 'unindex', 'more'),
          kind='cosine', n=12, steps=3 if deep else 2),
        S('norm', 'cosine_norm', 'one document of up to %d words: the weights of its words have norm 1'
          % (5 if deep else 4), ('norm',), maxlen=5 if deep else 4),
    ]


def w02(tier):
    deep = tier == 'thorough'
    out = []
    for k in ('okapi', 'cosine'):
        out += [
            S(k + ' any ids', 'phrase', 'one document of 1-2 words, phrase of 1-2 words, word ids 1..2**28-1', ('hit', 'miss'),
              kind=k, doclens=(1, 2), phraselens=(1, 2)),
            S(k + ' sequence', 'phrase', 'one document of 3-%d words, phrase of 2 words, word ids 1..127' % (5 if deep else 4),
              ('hit', 'miss'), kind=k, doclens=(3, 4, 5) if deep else (3, 4), phraselens=(2,), wmax=127),
            S(k + ' three', 'phrase', 'one document of 3-%d words, phrase of 3 words, word ids 1..127' % (5 if deep else 4),
              ('hit', 'miss'), kind=k, doclens=(3, 4, 5) if deep else (3, 4), phraselens=(3,), wmax=127),
        ]
    out += [
        S('near', 'phrase', 'one document of %d words, phrase of 2 words, word ids within 2 of the changes of the code '
          'length (0x80, 0x4000, 0x200000) and of the ends of the range' % (4 if deep else 3), ('hit', 'miss'),
          kind='okapi', doclens=(3, 4) if deep else (3,), phraselens=(2,), near=True),
        S('two documents', 'phrase', '2 documents of 2 words, phrase of 2 words or with an unknown word, word ids 1..127, '
          '64-bit family', ('hit', 'miss'), kind='okapi', doclens=(2, 3) if deep else (2,), phraselens=(2,), wmax=127,
          ndocs=2, unknown=True, bits=64),
        S('repeats', 'phrase', 'one document of 4-6 words out of 2 ids, phrase of 3-4 words', ('hit', 'miss'), kind='okapi',
          doclens=(4, 5, 6) if deep else (4, 5), phraselens=(3, 4) if deep else (3,), domain=(1, 0x81)),
        S('long ids', 'phrase', 'one document of 3 words, phrase of 2-3, word ids 0x4000..2**28-1', ('hit', 'miss'),
          kind='okapi', doclens=(2, 3), phraselens=(2, 3) if deep else (2,), wmin=0x4000),
    ]
    return out


QUERIES = ('xx', 'xx yy', 'xx xx', '"xx yy"', 'xx OR yy', 'xx NOT yy', 'xx AND (yy OR zz)', '"xx xx" yy', 'zz OR "yy xx"',
           'the xx', 'xx yy NOT "yy xx"', 'qq OR xx', 'xx xx xx OR yy')


def x04(tier):
    deep = tier == 'thorough'
    T = (1, 2, 3) if deep else (1, 2)
    return [
        S('okapi state 1', 'okapi_bound', 'stored index with 2 documents, 1 word, any frequencies and lengths; queries of '
          '%d terms of 1-2 words' % T[-1], (), ndocs=2, words=1, terms=T),
        S('okapi state 2', 'okapi_bound', 'the same, 1 document, 2 words', (), ndocs=1, words=2, terms=T),
        S('okapi state 3', 'okapi_bound', 'the same, 2 documents, 2 words', (), ndocs=2, words=2, terms=T),
        S('cosine state 1', 'cosine_bound', 'stored index with 2 documents, 1 word, any weights', (), ndocs=2, words=1,
          terms=T),
        S('cosine state 2', 'cosine_bound', 'the same, 1 document, 2 words', (), ndocs=1, words=2, terms=T),
        S('cosine state 3', 'cosine_bound', 'the same, 2 documents, 2 words', (), ndocs=2, words=2, terms=T),
        S('okapi documents', 'documents_bound', '1-2 documents of 1-2 words, terms of 2 and 1 words', (), kind='okapi',
          ndocs=2 if deep else 1, maxlen=(1, 2), terms=(2, 1)),
        S('cosine documents', 'documents_bound', 'the same', (), kind='cosine', ndocs=2 if deep else 1, maxlen=(1, 2),
          terms=(2, 1)),
        S('okapi results', 'apply_range', '2 documents of 1-2 words out of 3, %d queries through TextIndex.apply'
          % len(QUERIES), ('found',), kind='okapi', ndocs=2, maxlen=(1, 2) if deep else (2,), queries=QUERIES,
          words=('xx', 'yy', 'zz') if deep else ('xx', 'yy')),
        S('cosine results', 'apply_range', 'the same', ('found',), kind='cosine', ndocs=2,
          maxlen=(1, 2) if deep else (2,), queries=QUERIES, words=('xx', 'yy', 'zz') if deep else ('xx', 'yy')),
    ]


def with_c(fn, only=None):
    """the Okapi scenarios again with the C scoring loop"""
    def scenarios(tier):
        out = fn(tier)
        more = []
        for s in out:
            if s.params.get('kind') == 'okapi' or 'okapi' in s.name or s.fn == 'okapi_state':
                if only is None or s.name in only or tier == 'thorough':
                    more.append(Scenario(s.name + ' (C)', s.file, s.fn, s.bounds + '; scored by okascore.c', s.covers,
                                         s.params, oka='c'))
        return out + more
    return scenarios


SCENARIOS = {'X01': with_c(x01, ('okapi two steps', 'okapi low threshold', 'okapi large ids')), 'X02': with_c(x02), 'X03': x03, 'W02': with_c(w02, ('okapi any ids', 'two documents')), 'X04': with_c(x04)}
