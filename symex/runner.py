"""Explores all paths of the scenarios of a property and decides it."""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import z3

from . import core, env as envmod, loader, real
from .core import EngineAbort, Hang, Infeasible, PathDone, Unsupported, Violated

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH_LIMIT = 90         # seconds for one symbolic path
REPLAY_LIMIT = 20       # seconds for one replay of a path
BATCH_S = 1.0


class Scenario:
    """One bounded exploration.

    fn(env, **params) is the harness; `bounds` says what is symbolic and how
    far; `covers` are labels that some feasible path must reach.
    """

    def __init__(self, name, file, fn, bounds, covers=(), params=None, oka='c', replay=True):
        self.name, self.file, self.fn = name, file, fn
        self.bounds, self.covers, self.params = bounds, tuple(covers), dict(params or {})
        self.oka, self.replay = oka, replay

    def harness_name(self):
        return 'vh_' + os.path.basename(self.file)[:-3]


def _alarm(signum, frame):
    raise Hang('time limit')


class limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        # processor time: a busy machine must not look like a hang
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, self.s, 1.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)


def oka_factory(kind):
    if kind == 'c':
        from . import oka
        return oka.module_for
    return None


def run_symbolic(sc, prefix, stats):
    """one path; returns a dict describing it"""
    p = core.Path(prefix, stats)
    core.set_current(p)
    out = {'kind': 'ok', 'msg': '', 'siblings': []}
    try:
        try:
            with limit(PATH_LIMIT):
                w = loader.World(oka_factory(sc.oka))
                e = envmod.SymEnv(p, w)
                h = w.harness(sc.file, sc.harness_name())
                h.__dict__[sc.fn](e, **sc.params)
        except PathDone:
            pass
        except Infeasible:
            out['kind'] = 'infeasible'
        except Violated as v:
            out['kind'], out['msg'] = 'violated', v.msg
        except Unsupported as u:
            out['kind'], out['msg'] = 'unsupported', str(u) + _where()
        except Hang:
            out['kind'], out['msg'] = 'hang', 'time limit reached'
        except z3.Z3Exception as x:
            out['kind'], out['msg'] = 'unsupported', 'z3: %s' % x + _where()
        except RecursionError as x:
            out['kind'], out['msg'] = 'exception', 'RecursionError'
        except EngineAbort as x:
            out['kind'], out['msg'] = 'unsupported', repr(x)
        except Exception as x:
            out['kind'] = 'exception'
            out['msg'] = '%s: %s' % (type(x).__name__, _short(x)) + _where()
        if len(p.decisions) < len(prefix) and out['kind'] not in ('infeasible',):
            out['kind'], out['msg'] = 'unsupported', 'replay of decisions out of step'
        out['siblings'] = p.siblings
        out['decisions'] = len(p.decisions)
        out['inconclusive'] = list(p.inconclusive)
        out['covers'] = sorted(p.covers)
        out['funcs'] = sorted(p.funcs)
        out['checks'] = p.checks
        if out['kind'] != 'infeasible':
            try:
                m = p.need_model()
                out['inputs'] = envmod.inputs_from_model(p.inputs, m)
                if out['kind'] == 'ok':
                    out['obs'] = [(l, envmod.canon_model(v, m)) for l, v in p.obs]
            except Infeasible:
                out['kind'] = 'infeasible'
            except (Unsupported, z3.Z3Exception) as u:
                out.setdefault('inputs', None)
                out['inconclusive'].append('model: %s' % u)
    finally:
        p.close()
        core.set_current(None)
    return out


def _short(x):
    try:
        return str(x)[:200]
    except BaseException:
        return '?'


def _where():
    tb = sys.exc_info()[2]
    fs = [f for f in traceback.extract_tb(tb) if '/repo/' in f.filename or '/props/' in f.filename
          or f.filename.startswith(loader.SRC)]
    if not fs:
        fs = traceback.extract_tb(tb)
    f = fs[-1]
    last = traceback.extract_tb(tb)[-1]
    r = ' (at %s:%d' % (os.path.relpath(f.filename, '/'), f.lineno)
    if last is not f and last.filename != f.filename:
        r += ' via %s:%d' % (os.path.basename(last.filename), last.lineno)
    return r + ')'


def run_concrete(sc, inputs, time_limit=REPLAY_LIMIT):
    """replay on the real code: (outcome, message, env)"""
    e = envmod.ConcEnv(inputs)
    h = real.harness(sc.file, sc.harness_name())
    try:
        with limit(time_limit):
            h.__dict__[sc.fn](e, **sc.params)
    except PathDone:
        pass
    except Infeasible:
        return 'infeasible', '', e
    except envmod.CheckFailed as x:
        return 'violated', str(x), e
    except Hang:
        return 'hang', 'does not terminate within %d s' % time_limit, e
    except Exception as x:
        return 'exception', '%s: %s' % (type(x).__name__, _short(x)) + _where(), e
    return 'ok', '', e


def examine(sc, out):
    """replay a finished path on the real code; returns a violation or a note"""
    k = out['kind']
    if k == 'infeasible' or out.get('inputs') is None:
        return None
    if not sc.replay:
        return None
    r, msg, e = run_concrete(sc, out['inputs'])
    out['replayed'] = r
    if k in ('violated', 'exception', 'hang'):
        if r in ('violated', 'exception', 'hang'):
            return ('violation', msg)
        return ('divergence', '%s: %s -- real code: %s' % (k, out['msg'], r))
    if r in ('violated', 'exception', 'hang'):
        # the path was accepted (or cut) symbolically, but the real code fails on it
        return ('violation', msg)
    if k == 'unsupported':
        return None
    if r == 'infeasible':
        return ('divergence', 'assumption fails in the replay')
    want = [(l, v) for l, v in out.get('obs', [])]
    if len(want) != len(e.obs):
        return ('divergence', 'number of observations: %d, real %d' % (len(want), len(e.obs)))
    for (l, v), (l2, v2) in zip(want, e.obs):
        if l != l2 or not envmod.same_obs(v, v2):
            return ('divergence', 'observation %s: %r, real %s: %r' % (l, v, l2, v2))
    if sorted(e.covers) != out['covers']:
        return ('divergence', 'covers %r, real %r' % (out['covers'], sorted(e.covers)))
    return None


def worker(conn, scs, so):
    os.setpgrp() if False else None
    real.setup(so)
    try:
        while True:
            task = conn.recv()
            if task is None:
                return
            si, prefixes = task
            sc = scs[si]
            stats = core.Stats()
            res = []
            stack = list(prefixes)
            t0 = time.time()
            while stack and time.time() - t0 < BATCH_S:
                out = run_symbolic(sc, stack.pop(), stats)
                stack.extend(out.pop('siblings'))
                if out['kind'] == 'infeasible':
                    res.append({'kind': 'infeasible'})
                    continue
                try:
                    out['verdict'] = examine(sc, out)
                except Infeasible:
                    out['verdict'] = None
                if out['kind'] == 'ok' and out['verdict'] is None:
                    out.pop('obs', None)
                res.append(out)
                if out['verdict'] and out['verdict'][0] == 'violation':
                    break
            conn.send((si, res, stack, vars(stats)))
    except (EOFError, KeyboardInterrupt):
        pass


class Result:
    def __init__(self):
        self.paths = self.infeasible = self.replayed = self.branches = self.queries = 0
        self.solver_s = 0.0
        self.unknown = self.obligations = self.decisions = self.checks = 0
        self.covers, self.funcs = set(), set()
        self.inconclusive, self.violations, self.divergences = {}, [], []
        self.samples = []
        self.exhausted = True
        self.left = 0
        self.wall = 0.0


def explore(scs, nproc, deadline, so, stop_on_violation=True, verbose=False,
            is_known=lambda sc, msg, inputs: None, confirm=lambda sc, out, msg: True):
    """list of Result, one per scenario"""
    rs = [Result() for _ in scs]
    ctx = mp.get_context('fork')
    procs = []
    for _ in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, scs, so), daemon=True)
        p.start()
        b.close()
        procs.append([p, a, None, 0.0])
    queues = [[[]] for _ in scs]
    starts = [None] * len(scs)
    stop = False
    dead = []
    try:
        while True:
            now = time.time()
            busy = [q for q in procs if q[2] is not None]
            if stop or now > deadline:
                break
            for q in procs:
                if q[2] is None:
                    # scenario with pending work, fewest workers on it first
                    cand = [i for i in range(len(scs)) if queues[i]]
                    if not cand:
                        break
                    load = {i: sum(1 for z in procs if z[2] is not None and z[2][0] == i) for i in cand}
                    i = min(cand, key=lambda i: (load[i], i))
                    n = max(1, min(8, len(queues[i]) // (2 * nproc)))
                    ch = [queues[i].pop(0) for _ in range(n)]
                    if starts[i] is None:
                        starts[i] = now
                    q[2] = (i, ch)
                    q[3] = now
                    q[1].send((i, ch))
            busy = [q for q in procs if q[2] is not None]
            if not busy:
                break
            from multiprocessing.connection import wait
            ready = wait([q[1] for q in busy], timeout=1.0)
            for q in busy:
                if q[1] not in ready:
                    if now - q[3] > 3 * (PATH_LIMIT + REPLAY_LIMIT) or not q[0].is_alive():
                        # stuck in C code or killed
                        i, ch = q[2]
                        rs[i].inconclusive['worker lost'] = rs[i].inconclusive.get('worker lost', 0) + 1
                        rs[i].exhausted = False
                        q[0].kill()
                        a, b = ctx.Pipe()
                        p = ctx.Process(target=worker, args=(b, scs, so), daemon=True)
                        p.start()
                        b.close()
                        q[:] = [p, a, None, 0.0]
                    continue
                try:
                    si, res, rest, st = q[1].recv()
                except EOFError:
                    continue
                q[2] = None
                r = rs[si]
                queues[si].extend(rest)
                r.queries += st['queries']
                r.solver_s += st['solver_s']
                r.unknown += st['unknown']
                r.branches += st['branches']
                r.obligations += st['obligations']
                r.wall = time.time() - starts[si]
                for out in res:
                    if out['kind'] == 'infeasible':
                        r.infeasible += 1
                        continue
                    r.paths += 1
                    r.decisions += out['decisions']
                    r.checks += out['checks']
                    r.covers.update(out['covers'])
                    r.funcs.update(out['funcs'])
                    for x in out['inconclusive']:
                        r.inconclusive[x] = r.inconclusive.get(x, 0) + 1
                    if out['kind'] == 'unsupported':
                        k = 'not encodable: ' + out['msg']
                        r.inconclusive[k] = r.inconclusive.get(k, 0) + 1
                    if 'replayed' in out:
                        r.replayed += 1
                    v = out['verdict']
                    if v is not None and v[0] == 'violation':
                        if is_known(scs[si], v[1], out['inputs']):
                            r.violations.append((out, v[1]))
                        elif stop:
                            pass
                        elif confirm(scs[si], out, v[1]):
                            r.violations.append((out, v[1]))
                            stop = stop_on_violation
                        else:
                            k = 'not reproduced in a fresh process: ' + v[1][:300]
                            r.inconclusive[k] = r.inconclusive.get(k, 0) + 1
                    elif v is not None:
                        if len(r.divergences) < 20:
                            r.divergences.append((out.get('inputs'), v[1]))
                        k = 'not reproduced on the real code: ' + v[1][:300]
                        r.inconclusive[k] = r.inconclusive.get(k, 0) + 1
                    elif out['kind'] == 'ok' and len(r.samples) < 3:
                        r.samples.append(out['inputs'])
                if verbose:
                    sys.stderr.write('\r%s paths %d left %d   ' % (scs[si].name, r.paths, len(queues[si])))
    finally:
        for q in procs:
            try:
                q[1].send(None) if q[2] is None else None
            except OSError:
                pass
            if q[2] is not None:
                rs[q[2][0]].exhausted = False
                rs[q[2][0]].left += len(q[2][1])
            q[0].join(0.2) if q[2] is None else None
            if q[0].is_alive():
                q[0].kill()
    for i, qu in enumerate(queues):
        if qu:
            rs[i].exhausted = False
            rs[i].left += len(qu)
    return rs
