import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_legacy.py')
ASSUMPTIONS = {'M01': [
    'The state of an old version is the current one without the instance attributes documentCount and wordCount (and a '
    'number in place of the Okapi _totaldoclen), in the combinations listed, with word ids 1..n.']}


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


def m01(tier):
    deep = tier == 'thorough'
    out = []
    OLD = 'old index of 2 documents, 4 combinations of missing counters; '
    for k in ('okapi', 'cosine'):
        out += [
            S(k + ' one step', 'text', OLD + 'index 0-2 words, unindex or clear, any docid', ('upgraded', 'new', 'reindex',
                                                                                           'unindex'),
              kind=k, steps=(('0', '1', '2', 'u', 'c'),), phrases=True),
            S(k + ' two steps', 'text', OLD + 'twice index 1%s or unindex, %s' % ('-2 words' if deep else ' word',
                                                                                  'any docids' if deep else '3 docids'),
              ('upgraded', 'new', 'reindex', 'unindex'), kind=k, steps=(('1', '2', 'u') if deep else ('1', 'u'), ('1', 'u')),
              ids=None if deep else (1, 2, 3), wmax=127 if deep else 3),
            S(k + ' trees', 'text', 'the same, dictionary threshold 2', ('upgraded', 'new', 'reindex', 'unindex'), kind=k,
              steps=(('1', 'u'), ('1', 'u')) if deep else (('1', 'u'),), ids=(1, 2, 3, 4), wmax=3, cutoff=2,
              preload=((1, (1, 2)), (2, (2,)), (3, (2, 3)))),
            S(k + ' full', 'full', 'old TextIndex and lexicon, stored, loaded, one new document and %d operations, stored, '
              'loaded; 4 queries' % (2 if deep else 1), ('found', 'not found'), kind=k, n=2 if deep else 1,
              texts=('aa', 'dd bb', '', 'Cc aa'), queries=('aa', 'bb cc', 'b* OR dd', '"aa bb"')),
        ]
    out.append(S('okapi one step (C)', 'text', 'the same as okapi one step; scored by okascore.c', ('upgraded', 'new'),
                 oka='c', kind='okapi', steps=(('0', '1', '2', 'u', 'c'),), phrases=True))
    out.append(S('lexicon', 'lexicon', 'old lexicon of 2 words, then %d texts of 1-%d characters' % ((3, 3) if deep else (2, 2)),
                 ('new word', 'known word'), n=3 if deep else 2, lens=(1, 2, 3) if deep else (1, 2), alpha='ab '))
    return out


SCENARIOS = {'M01': m01}
