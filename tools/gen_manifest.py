"""Writes MANIFEST.json from the properties that have checks."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VT = '/opt/veriftools/pyvenv/bin/python3'
if not sys.prefix.startswith('/opt/veriftools'):
    os.execv(VT, [VT] + sys.argv)
from props import registry

TECH = ('symbolic execution of the real Python source (regenerated from /repo on every run) with z3: all paths of '
        'bounded scenarios, assertions decided by the solver, counterexamples replayed on the real code')
TECH_C = ('symbolic execution of the LLVM IR of the real okascore.c (compiled from /repo on every run) with z3, '
          'including failing interpreter calls; counterexamples replayed on the real extension')
NOTE = ('Bounded: holds for every value of the symbolic inputs within the bounds listed per scenario in DESIGN.md and '
        'the evidence file (operations, documents, words, characters). Trusts z3, the execution engine in symex/ and '
        'its models of BTrees, persistent, re and zope.interface; a model of every explored path is replayed on the '
        'real code with the real libraries and must give the same observations. Floats are reals.')
NA = []

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
have = registry.properties()
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/selftest.py',
    'checks': [],
    'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
    'notes': 'run.py decides one property; --replay FILE reruns a reported counterexample on the real code. '
             'No hooks in /repo.',
}
for p in props:
    if p in have:
        m['checks'].append({
            'property': p,
            'quick_cmd': 'python3 run.py %s --tier quick' % p,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % p,
            'technique': TECH_C if p == 'X05' else TECH,
            'level': 'model_checking',
            'level_note': NOTE,
        })
    elif p not in dict(NA):
        m['not_applicable'].append({'property': p, 'reason': 'check not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
