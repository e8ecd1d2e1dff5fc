"""All scenarios, by property and tier."""
import importlib
import os

from symex.runner import Scenario

HERE = os.path.dirname(os.path.abspath(__file__))
GROUPS = ('c_field', 'c_keyword', 'c_topic', 'c_algo', 'c_lexicon', 'c_query', 'c_text', 'c_tree', 'c_pure', 'c_durable', 'c_ids', 'c_oka', 'c_fail', 'c_conc', 'c_iso',
          'c_full', 'c_legacy', 'c_two')


def _all():
    table = {}
    for g in GROUPS:
        m = importlib.import_module('props.' + g)
        for prop, fn in m.SCENARIOS.items():
            assert prop not in table, prop
            table[prop] = (m, fn)
    return table


def scenarios(prop, tier):
    m, fn = _all()[prop]
    out = fn(tier)
    bulk = importlib.import_module('props.c_bulk').SCENARIOS
    if prop in bulk:
        out = out + bulk[prop](tier)
    out = out + importlib.import_module('props.c_bulk').wide(prop, tier)
    assert len({s.name for s in out}) == len(out)
    return out


def properties():
    return sorted(_all())


COMMON = [
    'The BTrees, persistent, re, math, copy and zope.interface libraries are replaced by models during symbolic '
    'execution; tools/selftest.py compares the models with the real libraries, and every explored path is replayed '
    'on the real libraries, results compared.',
    'Floating point numbers are real numbers during symbolic execution (their rounding is outside the claim); '
    'integers are unbounded.',
    'Bounds are those listed per scenario; longer histories, larger collections and longer strings are outside.',
]


def assumptions(prop):
    m, fn = _all()[prop]
    return COMMON + list(getattr(m, 'ASSUMPTIONS', {}).get(prop, ()))
