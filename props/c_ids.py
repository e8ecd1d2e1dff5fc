import os

from symex.runner import Scenario

from . import h_ids

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_ids.py')

KINDS = ('field', 'keyword', 'keyword case', 'topic', 'okapi', 'cosine')


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


def b01(tier):
    deep = tier == 'thorough'
    out = []
    for kind in KINDS:
        for bits in (32, 64):
            out.append(S('%s %d' % (kind, bits), 'history', '%d documents with any different %d-bit ids, then %d '
                         'operations (reindex, unindex); queries, sort, counters, types' % (4 if deep else 3, bits,
                                                                                            3 if deep else 2),
                         ('several', 'reindex', 'unindex'), kind=kind, bits=bits, n=4 if deep else 3, congruent=False,
                         steps=3 if deep else 2))
            out.append(S('%s %d types' % (kind, bits), 'query_types', '0-2 documents, every kind of query', kind=kind,
                         bits=bits))
            out.append(S('%s %d outside' % (kind, bits), 'outside', '%d document(s), any id outside the range' % (2 if deep else 1), kind=kind,
                         bits=bits, before=2 if deep else 1))
        out.append(S('%s congruent' % kind, 'history', '%d documents with any 64-bit ids equal modulo 2**32, then '
                     '%d operations' % (4 if deep else 3, 3 if deep else 2), ('several', 'reindex', 'unindex'),
                     kind=kind, bits=64, n=4 if deep else 3, congruent=True, steps=3 if deep else 2))
    for kind in ('okapi', 'cosine'):
        out.append(S(kind + ' trees', 'history', '64-bit ids equal modulo 2**32, words stored in BTrees', ('several',),
                     kind=kind, bits=64, n=2, congruent=True, steps=1, cutoff=0))
        for bits in (32, 64):
            out.append(S('%s apply %d' % (kind, bits), 'text_apply', 'TextIndex, 2 documents with any ids, 14 queries',
                         kind=kind, bits=bits, congruent=bits == 64))
    for bits in (32, 64):
        out.append(S('okapi %d (C)' % bits, 'history', '%d documents with any different ids%s, scored by okascore.c'
                     % (3 if deep else 2, ' equal modulo 2**32' if bits == 64 else ''), ('several',), oka='c',
                     kind='okapi', bits=bits, n=3 if deep else 2, congruent=bits == 64, steps=1))
    out.append(S('keyword trees', 'history', '64-bit ids equal modulo 2**32, threshold 1', ('several',), kind='keyword',
                 bits=64, n=2, congruent=True, steps=1, threshold=1))
    for kind in KINDS:
        n = {'okapi': 11, 'cosine': 11}.get(kind, 66)
        for bits in (32, 64):
            out.append(S('%s %d bulk' % (kind, bits), 'history', '%d documents, another one with any larger %d-bit id or one among them%s, then 1 operation'
                         % (n, bits, ' equal modulo 2**32' if bits == 64 else ''), ('several', 'reindex', 'unindex'),
                         kind=kind, bits=bits, n=1, congruent=bits == 64, steps=1, preload=n,
                         probe=False))
    for name in ('mass_weightedUnion', 'mass_weightedIntersection'):
        for bits in (32, 64):
            out.append(S('%s %d' % (name, bits), 'setops', '%d mappings, 2 keys with any ids' % (4 if deep else 3),
                         name_=name, bits=bits, n=4 if deep else 3))
    return out


SCENARIOS = {'B01': b01}
