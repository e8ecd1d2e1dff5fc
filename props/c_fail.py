import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_fail.py')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


def a01(tier):
    deep = tier == 'thorough'
    before = (0, 1, 2, 3) if deep else (0, 1, 2)
    out = []

    def add(name, index, params, bits=32, covers=(), before=before, after=2 if deep else 1, **k):
        bound = '%s documents with any %d-bit ids%s' % ('-'.join(str(b) for b in (before[0], before[-1])), bits,
                                                        ' up to %d' % k['dmax'] if 'dmax' in k else '')
        if 'preload' in k:
            bound = '%d documents, 3 ids (known or new)' % k['preload']
        out.append(S(name, 'failing', '%s, a call that fails, %d call(s) after it' % (bound, after),
            covers, index=index, bits=bits, params=params, before=before, after=after, **k))
    for bits in (32, 64):
        add('field %d' % bits, 'field', {}, bits, ('value', 'id', 'known', 'new'),
            before if bits == 32 or deep else (0, 1))
    add('field str', 'field', {'kind': 'str'}, 32, ('value',), id_=False)
    add('field tuple', 'field', {'kind': 'tuple'}, 32, ('value',), id_=False, before=before[:-1])
    small = (0, 1, 2) if deep else (0, 1)
    B = {'before': (0,), 'after': 1}
    add('field bulk', 'field', {}, 32, ('value', 'id', 'known', 'new'), preload=30, **B)
    add('keyword bulk', 'keyword', {}, 32, ('string', 'mixed', 'id', 'known', 'new'), preload=97, **B)
    add('topic bulk', 'topic', {}, 32, ('id',), preload=30, **B)
    for kind in ('okapi', 'cosine'):
        add(kind + ' bulk', 'text', {'kind': kind}, 32, ('lexicon', 'known', 'new'), preload=16, **dict(B, after=0))
    add('keyword', 'keyword', {}, 32, ('id', 'string', 'type', 'mixed', 'object', 'number', 'known', 'new'), small)
    add('keyword 64', 'keyword', {'norm': 'boom'}, 64, ('normalize', 'string', 'id', 'known', 'new'), small)
    add('keyword case', 'keyword', {'norm': 'lower'}, 32, ('type', 'mixed', 'string', 'known', 'new'), small)
    add('topic', 'topic', {}, 32, ('id',), small)
    add('topic 64', 'topic', {}, 64, ('id',), small)
    for kind in ('okapi', 'cosine'):
        add(kind, 'text', {'kind': kind}, 32, ('lexicon', 'number', 'id', 'known', 'new'), small)
        add(kind + ' two', 'text', {'kind': kind}, 32, ('lexicon', 'known'), (2,), after=1 if deep else 0, id_=False,
            dmax=3)
        add(kind + ' 64', 'text', {'kind': kind}, 64, ('id',), (1,), after=1 if deep else 0)
        add(kind + ' whole', 'text', {'kind': kind, 'lex': 'real', 'whole': True}, 32,
            ('number', 'list', 'late', 'known', 'new'), (0, 1), after=0 if not deep else 1)
    out.append(S('lexicon', 'lexicon', '0-%d texts, a text that fails, another text' % (3 if deep else 2),
                 words=('aa', 'bb aa', 'xx', 'yy xx') if deep else ('aa', 'xx bb'), n=3 if deep else 2))
    return out


SCENARIOS = {'A01': a01}
