"""Schedules of spec/Interleave.tla on real constructions (P24).  Each task constructs a
controller with random numbers of its own; it is suspended inside of chosen calls of
its functions.  Nested schedules run in one thread (a function constructs and asks
itself), the others in one thread per task, of which one runs at a time."""
import json
import os
import signal
import sys
import threading
import time
import traceback

import numpy as np
import driver_session as ds
from driver_session import dig, stream, flows, share, contain, user_functions, errors, to_np, arr, tap, mod, torch

WAIT = 40


class Stuck(Exception):
    pass


class Task:
    def __init__(self, run, t, cfg, seed, stops, exc):
        self.run, self.t, self.cfg, self.seed, self.stops, self.exc = run, t, cfg, seed, stops, exc
        self.calls, self.held, self.raised, self.later, self.obj, self.err, self.reached = 0, True, False, 0, None, '', 'none'
        self.rng = np.random.Generator(np.random.PCG64(seed))
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.done = False

    def wrap(self, fn):
        def g(x, t):
            self.calls += 1
            if self.raised:
                self.later += 1
            if self.calls not in self.stops:
                return fn(x, t)
            before = dig(x)
            order = self.suspend()
            if dig(x) != before:
                self.held = False
            if order == 'raise':
                self.raised = True
                raise self.exc
            return fn(x, t)
        return g

    def suspend(self):
        return self.run.inside(self)

    def construct(self):
        s = self.cfg
        f, ft, U = user_functions(s, 1)
        y1, y2 = contain(s['y1'], 'C', s['be']), contain(s['y2'], 'C', s['be'])
        g = np.array(s['g']).reshape(-1, 1) if s['gform'] == 'col' else s['g'][0]
        kw = dict(reweight=s['rw'], brown_bridge=s['bb'], deterministic=s['det'])
        if s['rw']:
            kw['U'] = self.wrap(U)
            if s['bb']:
                kw['f_true'] = self.wrap(ft)
        self.before = digest(self.rng)
        args = (y1, y2, np.asarray(g))
        b = dig(*args)
        try:
            self.obj = (mod.DPFC if s['be'] == 'np' else mod.torched_DPFC)(s['t1'], s['t2'], y1, y2, self.wrap(f), g, s['N'], s['M'], **kw)
            self.complete = all(tuple(F.shape) == (s['dim'], s['N'], len(self.obj.timegrid)) for F in flows(self.obj))
        except Stuck:
            raise
        except BaseException as e:
            if self.raised:
                self.reached = 'same' if e is self.exc else 'other'
            else:
                self.err = traceback.format_exc(limit=-3)
            e.__traceback__ = None
        self.argsok = dig(*args) == b
        self.done = True


def digest(rng):
    import hashlib
    return hashlib.blake2b(repr(rng.bit_generator.state).encode(), digest_size=8).hexdigest()


class Run:
    """executes a schedule: list of [action, task]"""

    def __init__(self, it):
        self.it = it
        self.log, self.objs, self.gen = [], {}, {}

    def state(self, ev):
        ev['objs'] = [dict(o=o, gen=self.gen[o], d=dig(*flows(x), x.timegrid)) for o, x in sorted(self.objs.items())]
        ev.update(bufs=[], tgt=0, set=[], inside=[], out=False, badlog=False, first=not self.log)
        ev.setdefault('err', False)
        ev.setdefault('msg', '')
        self.log.append(ev)

    def finished(self, task):
        o = self.offset + task.t
        if task.raised and not task.err:
            self.state(dict(op='fail', o=o, c=task.c, reached=task.reached, thrown=True, later=task.later, argsok=task.argsok, kind='callback', type=''))
            return
        ev = dict(op='build', o=o, c=task.c, before=task.before, flows='', after=digest(task.rng), argsok=task.argsok, shares=False,
                  warned=False, periodic=False, complete=True, held=task.held)
        if task.err:
            ev['err'], ev['msg'] = True, task.err
        else:
            ev['complete'] = task.complete
            ev['flows'] = dig(*flows(task.obj), task.obj.timegrid)
            self.objs[o] = task.obj
            self.gen[o] = len(self.log) + 1
            self.ids[o] = task
        self.state(ev)

    def query(self, o, n):
        task = self.ids[o]
        s, ob = task.cfg, self.objs[o]
        rng = np.random.Generator(np.random.PCG64(77 + n))
        i = self.it['at'][n % len(self.it['at'])] % (s['k'] - 2) + 1
        pts = np.random.Generator(np.random.PCG64(self.it['pseed'])).normal(size=(3, s['dim'])) * .1 + np.array(s['y1'])
        pts = torch.as_tensor(pts) if s['be'] == 'th' else pts
        keep, tap.rng = tap.rng, rng
        ev = dict(op='control', o=o, i=i, b=[1, 2, 3], flows=dig(*flows(ob), ob.timegrid), before=digest(rng), res=[], digest='', argsok=True, shares=False)
        try:
            r = ob.calculate_u(pts, i)
            ev['res'], ev['digest'] = arr(to_np(r)), dig(r)
            ob.check_if_covered(pts[0], i)
        except Exception:
            ev['err'], ev['msg'] = True, traceback.format_exc(limit=-3)
        ev['after'] = digest(rng)
        tap.rng = keep
        self.state(ev)

    # --- one thread ----------------------------------------------------------------
    def inside(self, task):
        if self.threads:
            self.where = task.t
            task.back.release()
            if not task.go.acquire(timeout=WAIT):
                raise Stuck()
            return self.order
        return self.play(task)

    def play(self, me=None):
        """actions of the schedule up to the end of this call of me"""
        while self.sched:
            a, t = self.sched.pop(0)
            if a == 'start':
                task = self.tasks[t]
                keep, tap.rng = tap.rng, task.rng
                task.construct()
                tap.rng = keep
                self.finished(task)
            elif a == 'query':
                if self.offset + t in self.objs:
                    self.query(self.offset + t, t)
            else:
                return a
        return 'return'

    # --- one thread per task ---------------------------------------------------------
    def body(self, task):
        task.go.acquire()
        task.construct()
        task.back.release()

    def let(self, task, order=None):
        self.order = order
        keep, tap.rng = tap.rng, task.rng
        task.go.release()
        if not task.back.acquire(timeout=WAIT):
            raise Stuck()
        tap.rng = keep
        if task.done:
            self.finished(task)

    def play_threads(self):
        for a, t in self.sched:
            task = self.tasks[t]
            if a == 'start':
                th = threading.Thread(target=self.body, args=(task,), daemon=True)
                th.start()
                self.let(task)
            elif a == 'query':
                if self.offset + t in self.objs:
                    self.query(self.offset + t, t)
            elif not task.done:
                self.let(task, a)

    def go(self):
        it = self.it
        self.ids = {}
        T = sorted({t for _, t in it['sched']})
        total = {}
        tap.start(0)
        # alone, in one go
        self.threads, self.offset = False, 0
        for t in T:
            task = self.make(t, [])
            self.tasks = {t: task}
            self.sched = [['start', t]]
            self.play()
            total[t] = task.calls
            if self.offset + t in self.objs:
                for q in T:
                    self.query(t, q)
        # overlapping
        self.offset = 10
        self.sched = [list(a) for a in it['sched']]
        self.threads = it['threads']
        self.tasks = {}
        for t in T:
            steps = sum(a[0] in ('return', 'raise') for a in self.sched if a[1] == t)
            fr = it['frac'][str(t)]
            stops = sorted({1 + int(fr[n] * max(1, total[t] - 1)) for n in range(min(steps, len(fr)))})
            n = 1
            while len(stops) < steps:       # positions that coincide
                if n not in stops:
                    stops.append(n)
                n += 1
            self.tasks[t] = self.make(t, sorted(stops))
        if self.threads:
            self.play_threads()
        else:
            self.play()
        # and alone again
        self.threads, self.offset = False, 20
        for t in T:
            task = self.make(t, [])
            self.tasks = {t: task}
            self.sched = [['start', t]]
            self.play()
        tap.stop()
        return dict(dim=it['cfgs'][0]['dim'], ask=it['ask'], log=self.log, names=[])

    def make(self, t, stops):
        task = Task(self, t, self.it['cfgs'][self.it['of'][str(t)]], 100 + self.it['seeds'][str(t)], stops, errors()[self.it['exc'] % len(errors())])
        task.c = self.it['of'][str(t)]
        return task


def alarm(*a):
    raise Stuck()


if __name__ == '__main__':
    items = json.load(open(sys.argv[1]))
    out = []
    signal.signal(signal.SIGALRM, alarm)
    waited = 0
    end = time.time() + (200 if len(items) < 60 else 480)     # far more than needed unless constructions wait for each other
    for i in items:
        run = Run(i)
        if i['threads'] and waited > 1 or time.time() > end:
            out.append(dict(dim=1, ask=i['ask'], log=[], names=[], stuck=True))
            continue
        try:
            signal.alarm(0 if i['threads'] else WAIT)
            out.append(run.go())
        except Stuck:
            # a lock around whole constructions is no error for threads, within one thread it blocks for ever
            out.append(dict(dim=1, ask=i['ask'], log=run.log, names=[], stuck=True) if i['threads'] else dict(crash='a construction inside of a callback blocks'))
            tap.stop()
            waited += 1
            if not i['threads']:
                break
        signal.alarm(0)
    while len(out) < len(items):       # one deadlock is enough
        out.append(dict(dim=1, ask=items[len(out)]['ask'], log=[], names=[], stuck=True))
    with open(sys.argv[2], 'w') as h:
        json.dump(out, h)
    os._exit(0)      # threads that are still waiting
