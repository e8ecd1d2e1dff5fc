import os

from symex.runner import Scenario

from . import h_conc

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_conc.py')

ASSUMPTIONS = {'C01': [
    'ZODB is modelled as: both transactions start from the same committed state; a commit writes the modified objects; '
    'an object both have modified is resolved by the merge of BTrees (MergeTemplate.c, one bucket) or Length, or is a '
    'conflict. Replays run two connections of real ZODB with DemoStorage, and must merge or conflict alike.']}


def S(name, fn, bounds, covers=(), oka=None, **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=oka)


def c01(tier):
    deep = tier == 'thorough'
    mc = ('merged', 'conflict')
    iu = ('index', 'unindex')
    iuc = iu + ('clear',)
    AND = '; then a call in each of two transactions'
    out = [
        S('field', 'field', 'up to one document with any id and value' + AND + ' on any documents', mc, sizes=(1, 1, 1),
          same=True, bits=64),
        S('field two', 'field', '2 documents with any values' + AND + ' (index_doc, unindex_doc, clear) on 3 documents', mc,
          sizes=(2, 1, 1), ids=(1, 2, 3), ops=iuc, same=True),
        S('field calls', 'field', '2 documents with any values, two calls in the first transaction, one in the second one',
          mc, sizes=(2, 2, 1) if deep else (1, 2, 1), ids=(1, 2, 3), same=True),
        S('keyword', 'keyword', '2 documents' + AND + ' (index_doc, unindex_doc, clear) on 3 documents, one keyword out of '
          '2', mc, sizes=(2, 1, 1), n=(1,), kind='ab', same=True, ids=(1, 2, 3), ops=iuc),
        S('keyword sets', 'keyword', '1 document' + AND + ' on 2 documents, 1-2 keywords out of %d' % (3 if deep else 2),
          mc, sizes=(1, 1, 1), n=(1, 2), kind='<abc' if deep else '<ab', same=True, ids=(1, 2)),
        S('keyword ids', 'keyword', '1 document with any id' + AND, mc, sizes=(1, 1, 1), n=(1,), kind='int', same=True),
        S('keyword trees', 'keyword', '2 documents with a tree from 3 documents on' + AND, mc, sizes=(1, 2, 1) if deep else (1, 1, 1), n=(1,),
          threshold=3, preload=1, ids=(1, 2, 3), same=True),
        S('keyword conversion', 'keyword', '1 document, any further one converts the set to a tree' + AND, mc, sizes=(0, 1, 1), n=(1,), threshold=2, preload=1, same=True),
        S('keyword optimize', 'keyword', '2 documents' + AND + ' (index_doc, unindex_doc, optimize() to trees, or to '
          'sets)', mc, sizes=(1, 1, 1), n=(1,), threshold=2, preload=1, ids=(1, 2, 3),
          ops=iu + ('optimize', 'optimize up'), same=True),
        S('field bulk', 'field', '20 documents with 3 values' + AND + ' on 3 ids with any values', mc, sizes=(0, 1, 1),
          same=True, ids=(1000, 1010, 5), preload=20, ops=iu),
        S('keyword bulk', 'keyword', '25 documents' + AND, mc, sizes=(0, 1, 1), n=(1, 2), kind='<ab', preload=25, same=True,
          ids=(100, 110, 1000)),
        S('topic', 'topic', '1 document, 2 filters' + AND + ' on different documents', mc, sizes=(1, 1, 1),
          ids=(1, 2, 3) if deep else (1, 2)),
        S('topic ids', 'topic', '1 document with any id, 1 filter' + AND + ' (also clearFilters)', mc, sizes=(1, 1, 1), ops=iu + ('clearFilters',), names=('g',)),
        S('lexicon', 'lexicon', 'a text of 1-2 characters learned' + AND + ' learning another one', mc, sizes=(1, 1, 1),
          length=(1, 2), alphabet='ab '),
    ]
    for kind in ('okapi', 'cosine'):
        out.append(S(kind + ' bulk', 'text', '10 documents of one word (default cutoff 10)' + AND, mc, kind=kind,
                     sizes=(0, 1, 1), words=((1,), (1, 2), (1,)), preload=10, same=True, wmax=2, ids=(1, 1001, 2000)))
    for kind in ('okapi', 'cosine'):
        one, two = (1,), (1, 2)
        out += [
            S(kind, 'text', '1 document' + AND + ' on 3 documents, 1-2 words of any ids up to 127', mc, kind=kind,
              sizes=(1, 1, 1), words=(two if deep else one, two, one), ids=(1, 2, 3), same=True),
            S(kind + ' clear', 'text', '1 document of 1 word' + AND + ' (also clear)', mc, kind=kind, sizes=(1, 1, 1),
              words=(one, one, one), ids=(1, 2, 3), ops=iuc, same=True),
            S(kind + ' trees', 'text', '4 documents, a word in a tree' + AND, mc, kind=kind, sizes=(1, 1, 1),
              words=(one, one, one), ids=(1, 2, 1001, 1002), cutoff=2, preload=3, same=True),
            S(kind + ' conversion', 'text', '2 documents of one word, a dictionary of 3 is converted to a tree' + AND +
              ' with any ids', mc, kind=kind, sizes=(0, 1, 1), words=(one, two, one), cutoff=3, preload=2, same=True, wmax=2),
            S(kind + ' whole', 'whole', 'TextIndex with the real lexicon, 1 document' + AND + ' on 3 documents, %d texts'
              % len(h_conc.TEXTS), mc, kind=kind, sizes=(2, 1, 1) if deep else (1, 1, 1), same=True)]
    return out


SCENARIOS = {'C01': c01}
