import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_query.py')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


def q01(tier):
    deep = tier == 'thorough'
    n = 4 if deep else 3
    return [
        S('tokens', 'tokens', '%d tokens, each any of 12 (words, stop word, AND, or, Not, parentheses, negated word, '
          'phrase, glob, hyphenated word); all assignments of documents to the leaves' % n,
          ('accepted', 'rejected', 'ignored'), n=n),
        S('more tokens', 'tokens', '%d tokens, each any of 6 (word, stop word, AND, NOT, parentheses)' % (n + 1),
          ('accepted', 'rejected', 'ignored'), n=n + 1, choices=('x', 'the', 'AND', 'NOT', '(', ')')),
        S('operators', 'tokens', '%d tokens out of x, y, AND, OR, NOT, the' % (n + 1),
          ('accepted', 'rejected'), n=n + 1, choices=('x', 'y', 'AND', 'OR', 'NOT', 'the')),
        S('operators 6', 'tokens', '%d tokens out of x, AND, OR, NOT' % (7 if deep else 5), ('accepted', 'rejected'),
          n=7 if deep else 5, choices=('x', 'AND', 'OR', 'NOT')),
        S('groups', 'tokens', '%d tokens out of x, NOT, OR and parentheses' % (7 if deep else 5),
          ('accepted', 'rejected'), n=7 if deep else 5, choices=('x', 'NOT', 'OR', '(', ')')),
        S('punctuation', 'tokens', '3 tokens out of 11, negated and hyphenated terms of up to 4 words, phrases, globs, '
          'stop words', ('accepted', 'rejected', 'ignored'), n=3, choices=('x', 'y-z', '-y-z', '-y-z-x', 'y.z.w.x', '-"x y z"',
                                                                         '"x"', '-x*', 'x*-y', '-the', 'NOT')),
        S('negated groups', 'groups', 'x NOT (...) and the like with 3 words and 2 operators inside', ('accepted',), n=3,
          prefixes=('x NOT ', 'x AND NOT ', 'x OR '), words=('y', 'z', 'w') if deep else ('y', 'z'), ops=(' AND ', ' OR ', ' NOT ', ' '),
          suffixes=('', ' OR z') if deep else ('',)),
        S('negated groups 4', 'groups', 'x NOT (a ? b ? c ? d)', ('accepted',), n=4,
          prefixes=('x NOT ', ''), words=('y',) if not deep else ('y', 'z'), ops=(' AND ', ' OR ', ' AND NOT '),
          suffixes=(' NOT w',)),
        S('characters', 'chars', 'strings of length 0-%d over a x o r " ( ) - * and blank' % (5 if deep else 4),
          ('accepted', 'rejected', 'ignored'), lens=(0, 1, 2, 3, 4, 5) if deep else (0, 1, 2, 3, 4),
          alpha='axor"()-* '),
        S('phrases', 'chars', 'x "..." y with 0-4 characters inside over x A - " blank', ('accepted',),
          lens=(0, 1, 2, 3, 4), alpha='xA-" ', prefix='x "', suffix='" y'),
        S('hyphens', 'chars', 'strings of length 1-5 over x - " blank', ('accepted', 'rejected'), lens=(1, 2, 3, 4, 5),
          alpha='x-" '),
        S('keyword case', 'chars', 'x???y with 5 characters over the letters of AND/OR/NOT, any case', ('accepted',),
          lens=(3,), alpha='aAnNdDoOrRtT', prefix='x ', suffix=' y'),
        S('valid queries', 'structured', 'queries built from the grammar: up to 2 alternatives of up to 2 terms of 1 or '
          '2 words%s' % (', parentheses nested 1 deep' if deep else ''), ('accepted',), depth=1 if deep else 0, width=2,
          leaves=('x', 'the') if deep else ('x',)),
        S('deep', 'structured', 'queries with 1 alternative and parentheses nested 3 deep', ('accepted',), depth=3,
          width=1, leaves=('x', 'y') if deep else ('x',)),
    ]


def q02(tier):
    deep = tier == 'thorough'
    return [
        S('characters', 'robust', 'strings of length 0-%d over a x " ( ) - * blank' % (5 if deep else 4),
          ('accepted', 'rejected', 'ignored'), lens=tuple(range(6 if deep else 5)), alpha='ax"()-* '),
        S('any text', 'robust', 'strings of length 0-%d over all of Unicode up to U+%s' % ((2, 'FFFF') if deep else (1, '07FF')), ('accepted', 'rejected'),
          lens=(0, 1, 2) if deep else (0, 1), alpha=tuple(list(range(0, 0xd800)) + list(range(0xe000, 0x10000)) if deep else range(0, 0x800))),
        S('reuse', 'robust', 'strings of length 0-3 over a x ( ) -, after an earlier query', ('accepted', 'rejected'),
          lens=(0, 1, 2, 3), alpha='ax()-', reuse=('x the', 'the', 'x AND', '(')),
        S('stop words', 'robust', '%d tokens out of 7, mostly stop words, after an earlier query' % (5 if deep else 4),
          ('accepted', 'rejected', 'ignored'), n=5 if deep else 4, tokens=('the', 'x', '"of"', '-the', 'OR', 'AND', 'NOT'),
          reuse=('', 'the x of') if deep else ('the x of',)),
        S('execution', 'robust', 'strings of length 0-3 over a x o r * - ", executed on an index', ('accepted',),
          lens=(0, 1, 2, 3), alpha='axor*-"', execute=True),
        S('nested', 'nested', '7 shapes of queries, parentheses nested 1, 2, 40 and 6000 deep', ('accepted', 'rejected'),
          depths=(1, 2, 40, 6000), must=40),
        S('token execution', 'ex_tokens', '%d tokens out of 10, executed on an index' % (4 if deep else 3),
          ('accepted', 'rejected'), n=4 if deep else 3,
          choices=('x', 'the', 'AND', 'OR', 'NOT', '(', ')', '-y', '"x y"', 'y*')),
    ]


SCENARIOS = {'Q01': q01, 'Q02': q02}
