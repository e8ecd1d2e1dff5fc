import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_topic.py')


def S(name, fn, bounds, covers=(), **params):
    return Scenario(name, F, fn, bounds, covers, params, oka=None)


def t01(tier):
    deep = tier == 'thorough'
    return [
        S('documents', 'history', '2 filters, 3 operations (index_doc, unindex_doc, clearFilters), symbolic 32 bit '
          'docids, expressions that are true, false or raise depending on symbolic attributes',
          ('reindex', 'unindex', 'clearFilters', 'several'), n=3, ops=('index', 'unindex', 'clearFilters'),
          forms=('search', 'apply', 'dict') if deep else ('search',),
          queries=None if deep else (('f',), ('g', 'f'), ('f', 'z'))),
        S('forms', 'history', '2 filters, 2 operations, every query form', ('several',), n=2, ops=('index', 'unindex')),
        S('filters', 'history', '4 operations (addFilter, delFilter, clear, index_doc) starting with one filter',
          ('add', 'del', 'clear', 'index'), n=4 if deep else 3, ops=('index', 'add', 'del', 'clear'), start=('f',),
          forms=('search',), queries=None if deep else (('f',), ('f', 'g'), ('g', 'z'))),
        S('three filters', 'history', '3 filters, 2 documents', ('several',), n=3 if deep else 2, ops=('index',),
          names=('f', 'g', 'h'), start=('f', 'g', 'h'), forms=('search',)),
        S('expressions', 'express', '%d operations (index_doc, unindex_doc, setExpression, clearFilters, addFilter of '
          'another filter of the name), 4 expressions, any docids and numbers' % (4 if deep else 3),
          ('express', 'clearFilters', 'again', 'unindex', 'several'), n=4 if deep else 3),
        S('raising', 'severe', '2 documents; expressions that raise, are no valid Python, or raise a BaseException',
          (), n=3 if deep else 2),
        S('bad', 'bad', 'any operator string of length 0-3, queries that are no list'),
    ]


SCENARIOS = {'T01': t01}
