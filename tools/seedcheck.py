#!/usr/bin/env python3
"""Confirms planted changes and runs the checks against them, each in a mount
namespace of its own in which /repo is a scratch copy.

seedcheck.py [-j N] [--norun] [--prop P] id..."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INNER = r'''
set -u
mount --bind "$W/repo" /repo || exit 9
cd /repo
D=$W/seed
bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh >$W/demo0 2>&1; echo "demo_clean $?"
git apply $W/patch.diff || { echo "apply failed"; exit 0; }
bash /opt/vp/build.sh >$W/build 2>&1 ; echo "build $?"
[ -n "$TESTS" ] && bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1
bash $D/demo.sh >$W/demo1 2>&1; echo "demo_bug $?"
'''


def one(sid, opts):
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        shutil.copytree(os.path.join(HERE, 'seeded', sid), w + '/seed')
        shutil.move(w + '/seed/patch.diff', w + '/patch.diff')
        meta = json.load(open(w + '/seed/meta.json'))
        env = dict(os.environ, W=w, TESTS='' if opts['notest'] else '1')
        r = subprocess.run(['unshare', '-m', 'bash', '-c', INNER], env=env, capture_output=True, text=True)
        res = dict(x.split(' ', 1) for x in r.stdout.splitlines() if ' ' in x)
        out = [sid, meta['property'], str(res)]
        if not opts['notest']:
            base = json.load(open('/opt/vp/BASELINE.json'))
            o = json.load(open(w + '/out.json'))
            stable = base.get('stable') or base.get('passed') or base.get('tests') or base
            passed = set(o.get('passed', []))
            miss = [t for t in stable if t not in passed]
            out.append('tests ok' if not miss else 'TESTS FAIL %d %s' % (len(miss), miss[:2]))
        ok = res.get('demo_clean') == '0' and res.get('demo_bug') not in (None, '0') and res.get('build') == '0'
        out.append('valid' if ok else 'INVALID ' + open(w + '/demo0').read()[-300:] + r.stderr[-300:])
        if not opts['norun']:
            for p in ([opts['prop']] if opts['prop'] else [meta['property']]):
                c = subprocess.run(['unshare', '-m', 'bash', '-c', 'mount --bind "$W/repo" /repo; cd %s; '
                                    'timeout 900 python3 run.py %s --tier quick' % (HERE, p)], env=env,
                                   capture_output=True, text=True)
                viol = re.findall(r'^VIOLATION.*\n.*', c.stdout, re.M)
                inc = re.findall(r'^INCONCLUSIVE.*', c.stdout, re.M)
                wall = re.findall(r'wall ([0-9.]+)', c.stdout)
                out.append('%s rc=%d %s %s %s' % (p, c.returncode, 'CAUGHT' if c.returncode == 1 and viol else 'MISSED',
                                                  viol[:1], inc[:3] or ''))
                if c.returncode not in (0, 1):
                    out.append(c.stderr[-500:])
        return ' | '.join(out)
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opts = {'norun': False, 'notest': False, 'prop': None}
    j, ids = 2, []
    while a:
        x = a.pop(0)
        if x == '-j':
            j = int(a.pop(0))
        elif x == '--prop':
            opts['prop'] = a.pop(0)
        elif x in ('--norun', '--notest'):
            opts[x[2:]] = True
        else:
            ids.append(x)
    if not ids:
        ids = sorted(os.listdir(os.path.join(HERE, 'seeded')))
    with ThreadPoolExecutor(j) as ex:
        for line in ex.map(lambda s: one(s, opts), ids):
            print(line, flush=True)


main()
