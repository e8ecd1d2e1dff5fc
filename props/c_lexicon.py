import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_lexicon.py')


def S(name, fn, bounds, covers=(), **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=None)


OPS = ('source', 'term', 'parse', 'glob')


def l01(tier):
    deep = tier == 'thorough'
    return [
        S('words', 'ids', '2 calls (sourceToWordIds first, then any of source, term, parse, glob) with 0-2 words of '
          'one symbolic letter out of a-z; then get_wid of any word',
          ('new word', 'known word', 'unknown query word', 'unknown'), n=3 if deep else 2, ops=OPS, nwords=(0, 1, 2),
          lens=(1,), alpha='abcdefghijklmnopqrstuvwxyz'),
        S('three calls', 'ids', '3 calls (sourceToWordIds first, then source or term) with 1-2 words of one symbolic '
          'letter', ('new word', 'known word', 'unknown query word'), n=3, ops=('source', 'term'),
          nwords=(1, 2), lens=(1,), alpha='abcdefghijklmnopqrstuvwxyz', probe=False),
        S('lengths', 'ids', '2 calls with 1-2 words of length 0-2 over ab', ('new word', 'known word'), n=2,
          ops=('source', 'term'), nwords=(1, 2), lens=(0, 1, 2) if deep else (1, 2), alpha='ab'),
        S('texts', 'ids', '2 calls with texts of length 0-3 over "ab-", word splitter', ('new word', 'known word'),
          n=2, ops=('source', 'term', 'parse', 'none'), nwords=(1,), lens=(0, 1, 2, 3, 4) if deep else (0, 1, 2, 3),
          alpha='ab-', text=True, probe=False),
        S('large', 'ids', 'lexicon of 300 words, 2 calls with 1-2 words of length 1-2 over w01', (), n=2,
          ops=('source', 'term'), nwords=(1, 2) if deep else (1,), lens=(2,), alpha='w01', start=300, probe=False),
    ]


def l02(tier):
    deep = tier == 'thorough'
    A = 'ab*?'
    return [
        S('two words', 'glob', '2 words of length 0-2 over ab, pattern of length 0-4 over ab*?',
          ('several words', 'wildcard match', 'leading wildcard'), nwords=2, wlens=(0, 1, 2), walpha='ab',
          plens=(0, 1, 2, 3, 4), palpha=A),
        S('long word', 'glob', '1 word of length 3-4 over ab, pattern of length 4 over ab*? beginning with a letter',
          ('wildcard match',), nwords=1, wlens=(3, 4, 5) if deep else (3, 4), walpha='ab',
          plens=(3, 4, 5) if deep else (3, 4), palpha=A, first='ab'),
        S('special', 'glob', '1 word and a pattern over characters special to regular expressions, including newline '
          'and backslash', ('wildcard match',), nwords=1, wlens=(1, 2, 3), walpha='a.\\\n[$', plens=(1, 2, 3),
          palpha='a.\\\n[$*?', first='a.+([\\^'),
        S('neighbours', 'glob', '1 word of length 0-3 among abc, ab, abd, b, ac*; pattern of length 1-3 over abc*?',
          ('several words', 'wildcard match'), nwords=1, wlens=(2, 3), walpha='abc', plens=(1, 2, 3),
          palpha='abc*?', extra=('abc', 'ab', 'abd', 'b', 'ac', 'a'), first='ab'),
        S('large characters', 'glob', '1 word of length 1-3 over a, U+FFFF and U+1F600, pattern of length 1-3', ('wildcard match',), nwords=1,
          wlens=(1, 2, 3), walpha='a\uffff\U0001f600', plens=(1, 2, 3), palpha='a\uffff\U0001f600*?', first='a\U0001f600'),
        S('capitals', 'glob', '2 words of length 1-3 over a and A, pattern of length 1-3 over aA*?', ('wildcard match',), nwords=2, wlens=(1, 3),
          walpha='aA', plens=(0, 1, 2, 3) if deep else (0, 1, 2), palpha='aA*?', first='aA'),
        S('newline', 'glob', '1 word of length 1-3 over a, newline', (), nwords=1, wlens=(1, 2, 3), walpha='a\n',
          plens=(1, 2), palpha='a\n*?', first='a'),
    ]


def l03(tier):
    deep = tier == 'thorough'
    U = 'a_1 -\xe9\u0660\u0301'
    return [
        S('splitter', 'splitter', 'texts of length 0-%d over letters, digits, underscore, accent, combining mark, '
          'blank, hyphen, * and ?' % (5 if deep else 4), ('several words',), lens=(0, 1, 2, 3, 4, 5) if deep else (0, 1, 2, 3, 4),
          alpha=U + '*?'),
        S('two texts', 'splitter', '2 texts of length 1-2', ('several words',), lens=(1, 2), alpha='a -*',
          ntexts=(0, 2)),
        S('any character', 'splitter', 'texts of length 1-2 over all of Unicode up to U+FFFF', (), lens=(1, 2) if deep
          else (1,), alpha=tuple(list(range(0, 0xd800)) + list(range(0xe000, 0x10000)))),
        S('tags', 'html', 'texts of length 0-%d over a<>&;' % (7 if deep else 6), ('several words', 'markup removed'),
          lens=(0, 1, 2, 3, 4, 5, 6, 7) if deep else (0, 1, 2, 3, 4, 5, 6), alpha='a<>&;', globmode=(False,)),
        S('entities', 'html', 'x&...;y with 0-3 characters over aZ1;& and newline', ('markup removed',),
          lens=(0, 1, 2, 3), alpha='aZ1;&\n', prefix='x&', suffix=';y'),
        S('tag body', 'html', 'x<...>y with 0-3 characters over "a<>*? " and newline', ('markup removed',),
          lens=(0, 1, 2, 3), alpha='a<>*\n', prefix='x<', suffix='>y'),
        S('case', 'html', 'texts of length 0-3 over letters with unusual lower case', (), lens=(0, 1, 2, 3) if deep
          else (0, 1, 2), alpha='A<>\u0130\xc9\u03a3\u212a', globmode=(False,)),
        S('stop words', 'stopwords', '2 words of length 1-2 over "abtonxisy"', ('dropped', 'kept'), lens=(1, 2),
          alpha='abtonisy', n=3 if deep else 2),
        S('longer stop words', 'stopwords', '1 word of length 3-5 over the letters of the stop words',
          ('dropped', 'kept'), lens=(3, 4, 5), alpha='abdefhilnorstuwy', n=1),
        S('single characters', 'stopwords', '2 words of one character up to U+0200', ('dropped', 'kept'), lens=(1,),
          alpha=tuple(range(0, 0x200)), n=2),
        S('independent', 'stop_independent', '1 word of one character up to U+012C'),
        S('pipeline', 'pipeline', 'texts of length 0-5 over "iTtS-", splitter, case, stop words', ('words',),
          lens=(0, 1, 2, 3, 4, 5), alpha='iTtS-'),
        S('html pipeline', 'pipeline', 'texts of length 0-4 over "aB<>"', ('words',), lens=(0, 1, 2, 3, 4),
          alpha='xB<>', html_=True, single=True),
    ]


SCENARIOS = {'L01': l01, 'L02': l02, 'L03': l03}
