# -*- coding: utf-8 -*-
"""Explores the cases of one property in parallel and reports."""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import multiprocessing as mp
from multiprocessing.connection import wait

from . import core, instrument, api, state, values, vfs
from .core import (Engine, PathInfeasible, Unsupported, CheckFailed, OutOfTime, Stats)

VERIF = instrument.VERIF
PATH_TIMEOUT = 60.0
NATIVE_PY = '/opt/venv/bin/python'


class TimedOut(BaseException):
    pass


def _alarm(signum, frame):
    raise TimedOut()


class Limit(object):
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def load_cases(prop, inst=True):
    """[(name, symbolic function, native function, quick bounds, thorough bounds, doc)]"""
    name = 'props.' + prop.lower()
    nat = importlib.import_module(name)
    sym = instrument.load(name) if inst else None
    out = []
    for n, f in list(nat.__dict__.items()):
        if hasattr(f, '_sx_case'):
            q, t = f._sx_case
            out.append((n, getattr(sym, n) if inst else None, f, q, t, (f.__doc__ or '').strip()))
    return nat, out


def native(fn, bounds, env, timeout=PATH_TIMEOUT):
    """run the harness on concrete values and the unmodified code: (outcome, label, detail, log)"""
    s = api.ConS(bounds, env)
    saved = sys.getrecursionlimit()
    try:
        with Limit(timeout):
            fn(s)
        return ('ok', s.hits, '', s.log)
    except api.ReplayFailed as e:
        return ('fail', e.label, str(e.detail), s.log)
    except api.Skip:
        return ('skip', None, '', s.log)
    except TimedOut:
        return ('fail', 'does not terminate', 'still running after %gs' % timeout, s.log)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '%s:%d' % (os.path.relpath(tb[-1].filename, instrument.REPO), tb[-1].lineno) if tb else ''
        return ('fail', 'unexpected %s' % type(e).__name__, '%s at %s' % (e, where), s.log)
    finally:
        vfs.off()
        sys.setrecursionlimit(saved)


class Explorer(object):
    """explores a list of prefixes of one case"""

    def __init__(self, cases, snaps):
        self.cases, self.snaps = cases, snaps
        self.engines = {}

    def run(self, ci, bounds, prefixes, slice_s, deadline):
        """returns leftover prefixes, stats, samples, violations, unmodelled"""
        name, sym, nat = self.cases[ci][:3]
        e = self.engines.get(ci)
        if e is None or e.bounds != bounds:
            self.engines.clear()
            e = self.engines[ci] = Engine()
            e.bounds = bounds
        core.ENGINE = e
        e.stats = Stats()
        e.deadline = deadline
        stack = list(prefixes)
        samples, viol, unmod = [], [], []
        t0 = time.time()
        n = 0
        while stack:
            if n and time.time() - t0 > slice_s:
                break
            n += 1
            prefix = stack.pop()
            self.snaps.restore()
            s = api.SymS(bounds)
            e.begin(prefix)
            kind, label, detail, env = 'ok', None, '', None
            try:
                with Limit(PATH_TIMEOUT):
                    sym(s)
            except PathInfeasible:
                kind = 'infeasible'
            except CheckFailed as x:
                kind, label, detail, env = 'fail', x.label, x.detail, x.env
            except Unsupported as x:
                kind, label = 'unsupported', 'unsupported: %s' % x
            except OutOfTime:
                kind = 'time'
            except TimedOut:
                kind, label = 'fail', 'does not terminate'
            except RecursionError:
                kind, label = 'fail', 'unexpected RecursionError'
            except Exception as x:
                tb = traceback.extract_tb(x.__traceback__)
                kind, label = 'fail', 'unexpected %s' % type(x).__name__
                detail = '%s at %s' % (x, '; '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in tb[-5:]))
            vfs.off()
            if kind != 'infeasible' and env is None:
                env = e.env()
            stack.extend(e.pending)
            log = list(s.log)
            e.end()
            if kind == 'infeasible':
                e.stats.paths -= 1
                continue
            if kind == 'time':
                stack.append(prefix)
                break
            self.snaps.restore()
            out, nlabel, ndetail, nlog = native(nat, bounds, env)
            e.stats.replayed += 1
            for finding, hlabel in (nlabel or []) if out == 'ok' else []:
                if finding not in [v.get('finding') for v in viol]:
                    viol.append(dict(case=name, label=hlabel, detail='', env=env, bounds=bounds, finding=finding,
                                     found_by='solver', symbolic=[kind, label, '']))
            if out == 'fail':
                viol.append(dict(case=name, label=nlabel, detail=ndetail, env=env, bounds=bounds,
                                 found_by='solver' if kind == 'fail' else 'replay of a path model',
                                 symbolic=[kind, label, str(detail)]))
                if len([v for v in viol if 'finding' not in v]) >= 3:
                    break
            elif kind != 'ok' or out != 'ok' or sorted(nlog) != sorted(log):
                e.stats.unmodelled += 1
                if (label or out) not in [u['why'] for u in unmod] and len(unmod) < 50:
                    unmod.append(dict(case=name, env=env, why=label or out, detail=str(detail)[:500],
                                      log_differs=sorted(nlog) != sorted(log)))
            elif nlabel and [h[0] for h in nlabel] != [h[0] for h in s.hits]:
                e.stats.unmodelled += 1
            elif len(samples) < 2 and (n % 37 == 1):
                samples.append(dict(case=name, input=_short(env), checks=len(log)))
        return stack, e.stats, samples, viol, unmod, sorted(instrument.ENTERED)


def _short(env):
    return dict((k, v) for k, v in list(env.items())[:40] if v not in (0, '', False) or len(env) < 8)


def _worker(conn, cases, snaps):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ex = Explorer(cases, snaps)
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        try:
            conn.send(('ok',) + tuple(ex.run(*msg)))
        except BaseException:
            conn.send(('err', traceback.format_exc()))


class Session(object):
    def __init__(self, prop, jobs=None):
        self.prop = prop
        self.jobs = jobs or min(8, os.cpu_count() or 1)
        core.ENGINE = Engine()
        core.ENGINE.begin([])
        instrument.setup()
        self.natmod, self.cases = load_cases(prop)
        mods = [m for n, m in list(sys.modules.items()) if n.startswith('pyopenapi') or n.startswith('props.')] + \
               [m for n, m in instrument.MODULES.items() if n.startswith('pyopenapi') or n.startswith('props.')]
        self.snaps = state.Snapshot(mods)
        self.conns, self.procs = [], []

    def start(self):
        for _ in range(self.jobs):
            a, b = mp.Pipe()
            p = mp.get_context('fork').Process(target=_worker, args=(b, self.cases, self.snaps), daemon=True)
            p.start()
            b.close()
            self.conns.append(a)
            self.procs.append(p)

    def stop(self):
        for c in self.conns:
            try:
                c.send(None)
            except Exception:
                pass
        for p in self.procs:
            p.join(0.2)
            if p.is_alive():
                p.terminate()

    def explore(self, tasks, deadline, on_viol):
        """tasks: [(case index, bounds)]; returns per-task result dicts"""
        res = [dict(case=self.cases[ci][0], bounds=b, stats=Stats(), samples=[], unmod=[], open=1, t=0.0)
               for ci, b in tasks]
        queue = [(i, [()]) for i in range(len(tasks))]
        entered = set()
        idle = list(self.conns)
        busy = {}
        stop = False
        while (queue and not stop) or busy:
            while queue and idle and not stop:
                if time.time() > deadline:
                    stop = True
                    break
                # spread one big list over the idle workers
                i, prefixes = queue.pop(0)
                want = max(1, len(idle) - len(queue))
                if want > 1 and len(prefixes) > 1:
                    k = max(1, (len(prefixes) + want - 1) // want)
                    queue.append((i, prefixes[k:]))
                    prefixes = prefixes[:k]
                c = idle.pop()
                starving = len(queue) < len(idle) + 1
                sl = 0.05 if starving else 1.0
                ci, b = tasks[i]
                c.send((ci, b, prefixes, sl, deadline))
                busy[c] = (i, time.time())
            if not busy:
                break
            for c in wait(list(busy), timeout=5):
                i, ts = busy.pop(c)
                idle.append(c)
                try:
                    msg = c.recv()
                except EOFError:
                    raise RuntimeError('worker died')
                if msg[0] == 'err':
                    raise RuntimeError(msg[1])
                _, left, st, samples, viol, unmod, ent = msg
                r = res[i]
                r['t'] += time.time() - ts
                r['stats'].add(st)
                if len(r['samples']) < 3:
                    r['samples'].extend(samples[:3 - len(r['samples'])])
                r['unmod'].extend(u for u in unmod if u['why'] not in [w['why'] for w in r['unmod']])
                entered.update(ent)
                if left:
                    queue.append((i, left))
                for v in viol:
                    if on_viol(v):
                        stop = True
        left = set(i for i, _ in queue)
        for i, r in enumerate(res):
            r['open'] = i in left
        return res, entered
