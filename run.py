#!/usr/bin/env python3
"""Decide one property:  run.py <property> [--replay FILE] [-v]"""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python3'
if not sys.prefix.startswith('/opt/veriftools') and os.path.exists(VT):
    os.execv(VT, [VT] + sys.argv)
sys.dont_write_bytecode = True
os.environ.setdefault('PURE_PYTHON', '0')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, VERIF)
sys.setrecursionlimit(3000)


def main():
    args = sys.argv[1:]
    prop = args[0]
    verbose = '-v' in args
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = args[args.index('--only') + 1] if '--only' in args else None
    from symex import real, runner
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        so, msg = real.build_okascore(work)
        os.environ['VERIF_WORK'] = work
        if so is None:
            print('INCONCLUSIVE property=%s okascore.c does not compile: %s' % (prop, msg.strip()[:500]))
        from props import registry
        scs = registry.scenarios(prop, tier)
        if so and any(s.oka == 'c' for s in scs):
            from symex import oka
            for f in (lambda: oka.compile_ir(oka.ir_path()), lambda: real.ledger_so(work)[1]):
                msg = f()
                if msg:
                    print('INCONCLUSIVE property=%s okascore.c: %s' % (prop, msg.strip()[:500]))
        if '--replay' in args:
            return replay(args[args.index('--replay') + 1], scs, so)
        if only:
            scs = [s for s in scs if s.name == only]
        return check(prop, tier, seed, scs, so, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path, scs, so):
    from symex import real, runner
    with open(path) as f:
        d = json.load(f)
    sc = {s.name: s for s in scs}[d['scenario']]
    real.setup(so)
    r, msg, e = runner.run_concrete(sc, d['inputs'], 60)
    print('%s: %s' % (r, msg))
    return 1 if r in ('violated', 'exception', 'hang') else 0


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f) if k.get('status') == 'known' and k['property'] == prop]


def check(prop, tier, seed, scs, so, verbose):
    from symex import runner
    t0 = time.time()
    budget = {'quick': 600, 'thorough': 3600}[tier]
    budget = float(os.environ.get('VERIF_BUDGET', budget))
    nproc = int(os.environ.get('VERIF_PROCS', min(8, os.cpu_count() or 1)))
    findings = known(prop)

    def is_known(sc, msg, inputs):
        for k in findings:
            if k['scenario'] == sc.name and k['message'] == msg and all(inputs.get(a) == b for a, b in
                                                                        k['inputs'].items()):
                return k
        return None
    replays = {}

    def confirm(sc, out, msg):
        """once more, in a process of its own"""
        d = {'property': prop, 'scenario': sc.name, 'inputs': out['inputs'], 'message': msg,
             'symbolic': out['kind'] + ': ' + out['msg'], 'bounds': sc.bounds}
        blob = json.dumps(d, indent=1, sort_keys=True)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(blob + '\n')
        try:
            c = subprocess.run([sys.executable, os.path.join(VERIF, 'run.py'), prop, '--tier', tier, '--replay',
                                path], capture_output=True, text=True, timeout=150)
            rc = c.returncode
        except subprocess.TimeoutExpired:
            rc = 1
        if rc == 1:
            replays[id(out)] = path
            return True
        os.unlink(path)
        return False
    rs = runner.explore(scs, nproc, t0 + budget, so, verbose=verbose, is_known=is_known, confirm=confirm)
    if verbose:
        for r in rs:
            for d in r.divergences[:5]:
                print('divergence', r.sc.name if hasattr(r, 'sc') else '', d)
    wall = time.time() - t0
    status = 0
    nviol = 0
    printed = set()
    for sc, r in zip(scs, rs):
        for out, msg in r.violations:
            k = is_known(sc, msg, out['inputs'])
            if k:
                if k['what'] not in printed:
                    printed.add(k['what'])
                    print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                continue
            nviol += 1
            status = 1
            print('VIOLATION property=%s replay=%s' % (prop, replays[id(out)]))
            print('  scenario %s: %s' % (sc.name, msg))
            print('  inputs %s' % json.dumps(out['inputs'], sort_keys=True))
    from props import registry
    missing = []
    for sc, r in zip(scs, rs):
        miss = [c for c in sc.covers if c not in r.covers]
        if miss and r.exhausted:
            missing.append((sc.name, miss))
            r.inconclusive['never reached: %s' % ', '.join(miss)] = 1
        for k, n in sorted(r.inconclusive.items()):
            print('INCONCLUSIVE property=%s scenario=%s %s (%d)' % (prop, sc.name, k, n))
        if not r.exhausted and status == 0:
            print('INCONCLUSIVE property=%s scenario=%s time limit: %d paths explored, at least %d left' % (
                prop, sc.name, r.paths, r.left))
        print('%s %s: %d paths, %d replayed on the real code, %d branches, %d obligations, %d queries, '
              'solver %.1f s, wall %.1f s%s' % (
                  prop, sc.name, r.paths, r.replayed, r.branches, r.obligations, r.queries, r.solver_s, r.wall,
                  '' if r.exhausted else ' (not exhausted)'))
    funcs = sorted(set().union(*[r.funcs for r in rs])) if rs else []
    funcs = [f for f in funcs if not f.startswith(('vh_', 'props.'))]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': sum(r.paths for r in rs),
            'transitions': sum(r.branches for r in rs),
            'traces_validated_against_impl': sum(r.replayed for r in rs),
            'samples': [{'scenario': sc.name, 'inputs': s} for sc, r in zip(scs, rs) for s in r.samples[:2]][:12],
            'explanation': 'states = feasible paths of the real code explored symbolically; transitions = branch '
                           'conditions on symbolic values decided by z3; every path model replayed on the real code',
            'exhaustive': all(r.exhausted and not r.inconclusive for r in rs),
            'functions_encoded': funcs,
            'queries': sum(r.queries for r in rs),
            'solver_seconds': round(sum(r.solver_s for r in rs), 2),
            'solver_unknown': sum(r.unknown for r in rs),
            'assertions_decided': sum(r.obligations for r in rs),
            'infeasible_paths': sum(r.infeasible for r in rs),
            'bounds': {sc.name: sc.bounds for sc in scs},
            'scenarios': {sc.name: {'paths': r.paths, 'replayed': r.replayed, 'branches': r.branches,
                                    'exhausted': r.exhausted, 'covers': sorted(r.covers),
                                    'inconclusive': r.inconclusive, 'wall_s': round(r.wall, 1)}
                          for sc, r in zip(scs, rs)},
        },
        'assumptions': registry.assumptions(prop),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if status == 0:
        print('OK property=%s tier=%s %s wall %.1f s' % (
            prop, tier, 'held on everything explored', wall))
    return status


if __name__ == '__main__':
    sys.exit(main())
