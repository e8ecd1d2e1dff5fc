"""Larger collections with few symbolic parts, added to the scenarios of
their properties."""
import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_bulk.py')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


OPS = 'operations (index, unindex) on the first, a middle, the last or a new one'


def f01(tier):
    deep = tier == 'thorough'
    return [S('bulk', 'field', '100 documents with 30 values, 2 %s, with a value among 4 (new and known); ranges around '
              'it' % OPS, ('index', 'unindex'), n=100, m=30, steps=2, sorts=False, lo=3, hi=6 if deep else 4)]


def f02(tier):
    deep = tier == 'thorough'
    return [S('bulk', 'field', '70 documents with 12 values, 3 %s' % OPS, ('index', 'unindex'), n=70, m=12,
              steps=3 if deep else 2, sorts=False, queries=False),
            S('bulk unique', 'field', '30 documents with different values, 2 %s' % OPS, ('index', 'unindex'), n=30, m=31, steps=2, sorts=False,
              queries=False)]


def f03(tier):
    deep = tier == 'thorough'
    return [S('bulk', 'field', '40 documents with 10 values, 1 of the %s; 4 choices of ids, 6 limits, both directions' % OPS,
              ('limited', 'unindexed id requested'), n=40, m=10, steps=1, queries=False),
            S('bulk 130', 'field', '130 documents with 50 values, 1 of the %s' % OPS, ('limited',), n=130, m=50, steps=1,
              queries=False, limits=('fifth', 'most', None) if deep else ('fifth', None), hi=4)]


def k(props):
    def fn(tier):
        deep = tier == 'thorough'
        norm = 'lower' if 'K04' in props else 'none'
        if 'K03' in props:
            return [S('bulk', 'keyword', '70 or 130 documents of 2-26 keywords, any threshold of 1, 13, 64, then 2 operations '
                      '(threshold, optimize, index)', ('index other', 'optimize', 'threshold'), n=(70, 130), steps=3 if deep else 2,
                      thresholds=(None, 1, 13), ops=('index other', 'optimize', 'threshold'))]
        return [S('bulk', 'keyword', '%s documents of 2-26 keywords, 2 %s' % ('60 or 66' if deep else '66', OPS), ('index', 'index other', 'replace', 'unindex'),
                  n=(60, 66) if deep else (66,), steps=2 if deep or 'K04' not in props else 1, norm=norm)]
    return fn


def t01(tier):
    return [S('bulk', 'topic', '100 documents, 3 filters, %d %s, any content' % (2, OPS), ('index', 'unindex', 'clear'), n=100,
              steps=2)]


def x01(tier):
    deep = tier == 'thorough'
    out = []
    for kind in ('okapi', 'cosine'):
        out.append(S(kind + ' bulk', 'text', '9, 10 or 11 documents of 20-22 words with ids of 1-4 characters, then 2 operations: '
                     'one word changed, added, removed; reversed; unindexed; on the first, a middle, the last or a new one',
                     ('one word', 'unindex', 'more', 'less', 'swap'), kind=kind, ndocs=(9, 10, 11) if deep else (10,), length=20,
                     steps=(('one word', 'more', 'less', 'swap', 'unindex'), ('one word', 'unindex') if not deep else
                            ('one word', 'more', 'less', 'swap', 'unindex')), near=(3, 6) if deep else (3, 4)))
        out.append(S(kind + ' rotate', 'text', '5 documents of 4 or 20 words, then the same words in another order, and a change of one '
                     'word', ('one word', 'rotate'), kind=kind, ndocs=(5,), length=4 if kind == 'okapi' else 20,
                     steps=(('rotate',), ('rotate', 'one word')), near=(3, 4)))
    return out


def w02(tier):
    deep = tier == 'thorough'
    return [S(kind + ' bulk', 'phrase', '2 documents of 40 words with ids of 1-4 characters, phrases of 2 to 12 words cut '
              'out of them, changed in one word (symbolic), reversed, with a word less or twice', ('hit', 'miss'), kind=kind,
              n=40, phrases=(2, 3, 5, 9, 12) if deep else (2, 5) if kind == 'okapi' else (3, 12), reindex=kind == 'cosine') for kind in ('okapi', 'cosine')]


def n01(tier):
    return [S('bulk', 'nbest', 'N 20, 80 items with many equal scores in 3 orders, one more with a symbolic score, 6 pops', (),
              cap=20, n=80, pops=6)]


def s01(tier):
    deep = tier == 'thorough'
    return [S(op + ' bulk', 'setops', '2 to 9 mappings of up to 12 entries, 2 symbolic keys and values', (), op=op,
              ns=(2, 3, 5, 9) if deep else (3, 6), size=12) for op in ('union', 'intersection')]


def w01(tier):
    return [S('bulk', 'widcode', '60 ids, 2 of them symbolic', (), n=60)]


def r02(tier):
    deep = tier == 'thorough'
    return [S('bulk', 'deltas', '30 elements, one symbolic delta 1..%d, others up to 300 in 3 patterns' % (130 if deep else 20), (), n=30,
              pats=((1,), (1, 300, 5), (70, 2, 64, 63, 65, 1)), lo=1, hi=130 if deep else 20)]


def l01(tier):
    deep = tier == 'thorough'
    return [S('bulk', 'lexicon', '%d words, then a text of 22 words, 2 symbolic characters' % (1000 if deep else 200), (),
              size=1000 if deep else 200, n=10)]


PATTERNS = ('a*', 'b*1*', 'a?*', 'a#*', 'b#1*', 'a*#', 'a*#*', 'b??#', 'b*?x', 'bb0', 'a#0x', 'b*b*b*', 'a????', 'ac*3#*')


def l02(tier):
    return [S('bulk', 'globs', '60 words of 2-7 characters, %d patterns with a symbolic character' % len(PATTERNS),
              ('several',), size=60, patterns=PATTERNS, alpha='abx0123*?')]


def l03(tier):
    deep = tier == 'thorough'
    from .h_bulk import TEXT, MARKUP
    out = []
    for how, shapes, alpha, single in (('splitter', TEXT, 'a -_*\xe9\u0301', False), ('html', MARKUP, '<>&; a\n', False),
                                       ('pipeline', TEXT, 'aI -\xc9', False), ('html pipeline', MARKUP, '<>&; A', True)):
        shapes = shapes if deep else shapes[:2] if how != 'splitter' else shapes
        out.append(S(how + ' bulk', 'long_texts', '%d texts of 35-90 characters with 3-4 symbolic ones out of %d, each '
                     'maybe with a letter' % (len(shapes), len(alpha)), ('words',), shapes=shapes,
                     alpha=alpha if deep else alpha[:5] if 'html' in how else alpha[:4], how=how, single=single))
    return out


TOKENS = ('x', 'the', 'AND', 'OR', 'NOT', '-y', '(', ')')


def q01(tier):
    deep = tier == 'thorough'
    from . import h_bulk
    return [S('long', 'queries', '%d queries of 9-14 terms with %d further tokens out of 8' % (
        len(h_bulk.QUERIES), 4 if deep else 3), ('accepted', 'rejected'), tokens=TOKENS, n=4 if deep else 3)]


def e01(tier):
    from . import h_bulk
    return [S('bulk', 'trees', '%d trees with 8 leaves, 15 documents and a symbolic one' % len(h_bulk.SHAPES), (),
              shapes=h_bulk.SHAPES, ndocs=15)]



# ---- many of one thing at once

def wide(prop, tier):
    deep = tier == 'thorough'
    if prop == 'F01':
        return [S('wide', 'field_wide', '70, 300 or 600 documents with different values, one of them changed or gone; ranges of 64 to 513 values and '
                  'almost all', ns=(70, 300, 600) if not deep else (70, 130, 300, 600, 1100))]
    if prop in ('K01', 'K02', 'K04'):
        return [S('wide', 'keyword_wide', 'documents with and queries for %s keywords, 5 changes' % ('20-300' if deep else 40 if prop == 'K04' else 130), ns=((130,) if prop != 'K04' else (40,)) if not deep
                  else (20, 70, 150, 300), norm='lower' if prop == 'K04' else 'none')]
    if prop == 'T01':
        return [S('wide', 'topic_wide', '12, 40 or 70 filters, all of them in the query', ns=(12, 40, 70))]
    if prop == 'S01':
        return [S(op + ' wide', 'setops_wide', '12, 40 or 130 mappings', op=op, ns=(12, 40, 130)) for op in ('union', 'intersection')]
    if prop == 'E01':
        return [S('wide', 'trees_wide', 'AND, OR and AND NOT of 12, 40 or 130 operands', ns=(12, 40, 130))]
    if prop == 'Q01':
        return [S('wide', 'queries_wide', '7 kinds of queries of 12, 40 or 100 terms, one of which is one of 6 tokens',
                  ns=(12, 40, 100))]
    if prop in ('X02', 'X03'):
        return [S('wide', 'search_wide', 'queries of 12, 40 or 70 words', kind={'X02': 'cosine', 'X03': 'okapi'}[prop], ns=(12, 40, 70))]
    if prop == 'N01':
        return [S('wide', 'nbest', 'N 150, 400 items', cap=150, n=400, pops=3)]
    if prop == 'W01':
        return [S('wide', 'widcode', '300 ids, 2 of them symbolic', n=300)]
    if prop == 'R02':
        return [S('wide', 'deltas', '150 elements, one symbolic delta', n=150, pats=((1, 300, 5), (70, 2, 64, 63, 65, 1)), lo=1, hi=4)]
    if prop == 'L01':
        return [S('wide', 'lexicon', '900 words, then a text of 102 words', size=900, n=50)]
    if prop == 'X01':
        out = []
        for kind in ('okapi', 'cosine'):
            out += [S(kind + ' wide texts', 'text', '2 documents of 300 words, then a change of one word, or the same words in another order',
                      ('one word', 'rotate'), kind=kind, ndocs=(2,), length=300, steps=(('one word', 'rotate', 'more'),), near=(3, 4)),
                    S(kind + ' wide words', 'text', '2 documents of 300 different words, half of them common, one with other words, reversed or '
                      'unindexed', ('others', 'swap', 'unindex'), kind=kind, ndocs=(2,), length=300, steps=(('others', 'swap', 'unindex'),),
                      near=(3, 4), distinct=True),
                    S(kind + ' wide', 'text', '150 documents of 3 words, then a change of one word, or one unindexed', ('one word', 'unindex'),
                      kind=kind, ndocs=(150,), length=3, steps=(('one word', 'unindex'),), near=(3, 4))]
        return out
    if prop == 'X05':
        return [S('wide ' + form, 'oka_wide', '70, 260 or 600 pairs (%s), one with any numbers' % form, oka='c', ns=(70, 260, 600), form=form)
                for form in ('list', 'items')]
    if prop == 'R01':
        return [S('wide', 'rice_wide', '100 values, one symbolic with a quotient of 7, 64 or 300', ms=(0, 1, 5, 16), n=100, big=(7, 64, 300))]
    if prop in ('G01', 'X04'):
        return [S('wide', 'apply_wide', '5 documents of 20 or 90 words, 7 queries of 1 to 90 terms', ns=(20, 90))]
    if prop == 'F03':
        return [S('wide', 'field', '600 documents with 150 values, 1 of the %s' % OPS, ('limited',), n=600, m=150, steps=1,
                  queries=False, limits=('fifth', 'most', None) if deep else ('fifth', None), hi=3)]
    if prop == 'L02':
        return [S('wide', 'globs', '700 words of 2-7 characters, 4 patterns with a symbolic character', ('several',), size=700,
                  patterns=('a#*', 'b1#*', 'b*#', 'a????'), alpha='abx0*?')]
    if prop == 'L03':
        return [S(how + ' wide', 'long_texts', 'a text of 300 words and then one with symbolic characters', ('words',), shapes=('%s end the Q%s',),
                  alpha='aI -\xc9', how=how, lead=300) for how in ('splitter', 'html', 'pipeline')]
    return []


SCENARIOS = {'F01': f01, 'F02': f02, 'F03': f03, 'K01': k(('K01',)), 'K02': k(('K02',)), 'K03': k(('K03',)), 'K04': k(('K04',)),
             'T01': t01, 'X01': x01, 'W02': w02, 'N01': n01, 'S01': s01, 'W01': w01, 'R02': r02, 'L01': l01, 'L02': l02, 'L03': l03,
             'Q01': q01, 'E01': e01}
