import os

from symex.runner import Scenario

F = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_oka.py')

ASSUMPTIONS = {'X05': [
    'okascore.c is compiled to LLVM IR by clang -O1 and the IR is executed; the Python C API it calls is a model '
    '(objects, reference counts, pending exceptions, freed objects).  Replays run the C code compiled by gcc, with a '
    'ledger of the references it owns and calls that can be made to fail.',
    'mean length > 0 and a frequency >= 1, as the index has when it has documents.',
    'doubles are real numbers: NaN, infinities and rounding are outside.']}


def S(name, fn, bounds, covers=(), **params):
    return Scenario(name, F, fn, bounds, covers, params)


def x05(tier):
    deep = tier == 'thorough'
    n = 4 if deep else 3
    out = [S('no pairs', 'loop', 'no pairs, the result has another document', ('other',), n=0, kind='IF', prior=True)]
    for i, (kind, bits, dest, prior, form) in enumerate((
            ('IF', 32, 'bucket', False, 'list'), ('II', 64, 'bucket', True, 'list'), ('dict', 32, 'dict', True, 'tuple'),
            ('IF', 64, 'tree', True, 'items'), ('dict', 32, 'bucket', False, 'items'))):
        k = n if not prior else n - 1
        out.append(S('loop %d' % i, 'loop', '%d pairs (%s), any %d-bit docids, frequencies and lengths up to 10**6, any '
                     'idf and mean length; lengths in %s, result %s%s' % (
                         k, form, bits, kind, dest, ', with another document' if prior else ''),
                     ('scored',) + (('other',) if prior else ()), n=k, kind=kind, bits=bits, dest=dest, prior=prior,
                     form=form))
    out += [
        S('order', 'order', '%d pairs, any docids, maybe repeated' % n, ('repeated',), n=n),
        S('python', 'same_as_python', 'stored index with %d documents that have the word, any numbers: the C loop '
          'against the Python loop' % (n - 1), (), n=n - 1),
        S('python dict', 'same_as_python', 'the same, frequencies in a dict, 64-bit docids', (), n=2, tree=False,
          bits=64),
    ]
    two = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'h_two.py')
    out += [Scenario('two calls', two, 'oka', '%d pairs, then the same documents with other numbers in another order; the '
                     'first call may fail at its end' % (n - 1), ('ok', 'fails'), dict(n=n - 1))]
    from .h_oka import BAD
    out += [S('bad arguments', 'bad', '%d pairs, one of %d wrong arguments or items at any position' % (n, len(BAD)),
              BAD, n=n)]
    for form in ('list', 'items'):
        for dest in ('log', 'bucket'):
            out.append(S('faults %s %s' % (form, dest), 'faults', '%d pairs from a %s, results to a %s; any one call '
                         'into the interpreter fails' % (n, form, dest), ('failed', 'not failed'), n=n, form=form,
                         dest=dest, calls=4 * n + 2))
    return out


SCENARIOS = {'X05': x05}
