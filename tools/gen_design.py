"""Writes DESIGN.md."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VT = '/opt/veriftools/pyvenv/bin/python3'
if not sys.prefix.startswith('/opt/veriftools'):
    os.execv(VT, [VT] + sys.argv)
from props import registry

out = [open(os.path.join(HERE, 'tools/design_head.md')).read().rstrip() + '\n']
for f in json.load(open(os.path.join(HERE, 'known_findings.json'))):
    out.append('- ' + f['text'].replace('fixed: property=', '', 1))
out.append(open(os.path.join(HERE, 'tools/design_mid.md')).read().rstrip() + '\n')
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    out.append('### %s %s\n' % (p['id'], p['title']))
    quick = {s.name: s.bounds for s in registry.scenarios(p['id'], 'quick')}
    deep = {s.name: s.bounds for s in registry.scenarios(p['id'], 'thorough')}
    for n, b in quick.items():
        out.append('- %s: %s' % (n, b))
        if n in deep and deep[n] != b:
            out.append('  (thorough: %s)' % deep[n])
    for n in deep:
        if n not in quick:
            out.append('- %s (thorough only): %s' % (n, deep[n]))
    for a in getattr(registry._all()[p['id']][0], 'ASSUMPTIONS', {}).get(p['id'], ()):
        out.append('- *Assumption:* ' + a)
    out.append('')
out.append(open(os.path.join(HERE, 'tools/design_tail.md')).read().rstrip() + '\n')
out.append('| planted bug | property | needs | breaks |\n|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'],
                                          m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
