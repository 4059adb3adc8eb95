"""Histories of spec/Session.tla on real controllers (P12, P18, P19, P22, P23)."""
import hashlib
import io
import json
import logging
import os
import random
import shutil
import sys
import tempfile
import traceback
import warnings

import numpy as np
import rngtap
from enc import arr
import driver_flow as df
from procset import SETTINGS, settings, configure
import procset
from driver_flow import torch, to_np, mod

tap = rngtap.tap
logging.disable(logging.NOTSET)
warned = [0]
malformed = [0]
OUT = io.StringIO()
CALLS = {}


class Count(logging.Handler):
    def emit(self, rec):
        if rec.levelno >= logging.WARNING:
            warned[0] += 1
        try:
            rec.getMessage()
        except Exception:
            malformed[0] += 1


root = logging.getLogger()
root.handlers[:] = [Count()]
root.setLevel(logging.WARNING)


def count_warnings(*a, **k):
    warned[0] += 1


warnings.simplefilter('always')
warnings.showwarning = count_warnings


def dig(*arrays):
    h = hashlib.blake2b(digest_size=8)
    for a in arrays:
        if torch is not None and torch.is_tensor(a):
            a = a.detach().cpu().numpy()
        a = np.asarray(a)
        h.update(str((a.shape, a.dtype)).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    return h.hexdigest()


def seed(s, real):
    if real:
        np.random.seed(s + 17)
        if torch is not None:
            torch.manual_seed(s + 17)
        random.seed(s + 17)
    else:
        tap.start(s)


def stream(real):
    if not real:
        return hashlib.blake2b(repr(tap.rng.bit_generator.state).encode(), digest_size=8).hexdigest()
    st = np.random.get_state()
    h = hashlib.blake2b(digest_size=8)
    h.update(np.asarray(st[1]).tobytes())
    h.update(repr((st[2:], random.getstate())).encode())
    if torch is not None:
        h.update(torch.get_rng_state().numpy().tobytes())
    return h.hexdigest()


def memory(a):
    return a.detach().cpu().numpy() if torch is not None and torch.is_tensor(a) else np.asarray(a)


def share(a, b):
    try:
        return bool(np.may_share_memory(memory(a), memory(b)) and np.shares_memory(memory(a), memory(b)))
    except Exception:
        return bool(np.may_share_memory(memory(a), memory(b)))


def flows(o):
    return [getattr(o, n) for n in ('Z', 'B', 'Ztr') if hasattr(o, n)]


class Private(Exception):
    pass


def errors():
    return [ValueError('user'), RuntimeError('user'), FloatingPointError('user'), np.linalg.LinAlgError('user'), IndexError('user'), StopIteration('user'),
            KeyboardInterrupt('user'), Private('user'), TypeError('user'), ZeroDivisionError('user'), KeyError('user'), AttributeError('user'),
            MemoryError('user'), OverflowError('user'), ImportError('user'), AssertionError('user'), SystemExit(3), Warning('user'), OSError(5, 'user')]


class Caller:
    """user functions wrapped: counts the calls, raises at one of them, looks at the settings"""

    def __init__(self, watch):
        self.n = dict(f=0, ftrue=0, U=0)
        self.total, self.at, self.exc, self.later, self.watch, self.inside = 0, None, None, 0, watch, []

    def wrap(self, name, fn):
        def g(x, t):
            self.n[name] += 1
            self.total += 1
            if self.exc is not None and self.thrown():
                self.later += 1
            if self.watch:
                v = settings()
                if v not in self.inside:
                    self.inside.append(v)
            if self.exc is not None and self.at == (name, self.n[name]):
                self.fired = True
                raise self.exc
            return fn(x, t)
        return g
    fired = False

    def thrown(self):
        return self.fired


# --- user functions in several styles of returning their value --------------------
def styled(fn, style):
    """fn computes a fresh value; the styles hand it out differently"""
    keep = {}

    def plain(x, t):
        return fn(x, t)

    def cached(x, t):
        v = fn(x, t)
        if 'b' not in keep:
            keep['b'] = v
        else:
            keep['b'][...] = v
        return keep['b']

    def table(x, t):       # values remembered per time, handed out again when asked again
        k = (dig(x), float(t))
        if k not in keep:
            keep[k] = fn(x, t)
        return keep[k]
    return {'plain': plain, 'cached': cached, 'table': table}[style]


def user_functions(s, v):
    """drift, true drift and path cost; variant v only changes what is returned, not its value"""
    kind = s.get('fkind', 'poly')
    y = s['y1']

    def poly(name, p):
        return df.make_callback(name, p, dict(s, ret='plain'), [])
    if kind == 'poly':
        st = ['plain', 'cached', 'table'][(v - 1) % 3]
        return (styled(poly('f', s['f']), st), styled(poly('ftrue', s['ftrue']), st), styled(poly('U', s['U']), st))
    U = poly('U', s['U'])
    if kind == 'identity':
        if v == 1:
            f = lambda x, t: x.clone() if torch is not None and torch.is_tensor(x) else x.copy()   # noqa: E731
        elif v == 2:
            f = lambda x, t: x    # noqa: E731
        else:
            f = lambda x, t: x[:]    # noqa: E731
        if v > 1:
            U = (lambda x, t: x[0])
        else:
            U = (lambda x, t: x[0] * 1)
        return f, f, U
    if kind == 'constant':
        store = {}

        def const(nm, amp):
            def f(x, t):
                is_t = torch is not None and torch.is_tensor(x)
                k = (nm, is_t)
                if v == 1 or k not in store:
                    c = np.arange(1, x.shape[0] + 1).reshape(-1, 1) * amp + np.zeros((1, x.shape[1]))
                    store[k] = torch.tensor(c, dtype=x.dtype) if is_t else c
                return store[k]
            return f

        def cost(x, t):
            is_t = torch is not None and torch.is_tensor(x)
            k = ('U', is_t)
            if v == 1 or k not in store:
                c = np.linspace(-300, 300, x.shape[1])
                store[k] = torch.tensor(c, dtype=x.dtype) if is_t else c
            return store[k]
        return const('f', 1.3), const('ftrue', -.7), cost
    raise ValueError(kind)


OPTIONS = {7: dict(dens_est='hermit2'), 8: dict(dens_est='RBF', reject=False), 9: dict(dens_est='poly'), 10: dict(kern='periodic', dens_est='RBF'),
           11: dict(dens_est='any other name'), 12: dict(kern='RBF', dens_est='hermit1', reject=False),
           1: {}, 2: dict(kern='periodic'), 3: dict(dens_est='hermit1'), 4: dict(reject=False),
           5: dict(kern='periodic', dens_est='poly', reject=False), 6: dict(kern='RBF', dens_est='nonparametric', reject=True)}


def contain(a, box, be):
    a = np.array(a, dtype=float)
    if box == 'view':
        return np.repeat(a, 2, axis=0)[::2]
    if box == 'F':
        return np.asfortranarray(a)
    if box == 'window':
        big = np.full(tuple(n + 2 for n in a.shape), 3.25)
        v = big[tuple(slice(1, -1) for _ in a.shape)]
        v[...] = a
        return v
    if box == 'readonly' and be == 'np':
        a.flags.writeable = False
    if box == 'tensor' and be == 'th':
        return torch.tensor(a, dtype=torch.float64)
    return a


class Session:
    def __init__(self, it):
        self.it = it
        self.objs = {}
        self.cfg = {}
        self.conf = {}
        self.callers = {}
        self.gen = {}
        self.bufs = []
        self.asked = {}
        self.log = []
        self.watch = 'settings' in it['ask'] or 'failures' in it['ask']
        self.inside = []
        if self.watch:
            for h in os.listdir(procset.SCRATCH):
                if h != 'sub':
                    os.remove(os.path.join(procset.SCRATCH, h))
            configure(1)
            OUT.seek(0)
            OUT.truncate()
            malformed[0] = 0

    def state(self, ev, tgt=0):
        ev['set'], ev['inside'], ev['out'], ev['badlog'], ev['first'] = [], [], False, False, not self.log
        if self.watch:
            ev['set'], ev['inside'], ev['out'], ev['badlog'] = settings(), self.inside, OUT.tell() > 0, malformed[0] > 0
            OUT.seek(0)
            OUT.truncate()
            malformed[0] = 0
            self.inside = []
        ev['objs'] = [dict(o=o, gen=self.gen[o], d=dig(*flows(x), x.timegrid)) for o, x in sorted(self.objs.items())]
        ev['bufs'] = [dig(b) for b in self.bufs]
        ev['tgt'] = tgt
        ev.setdefault('err', False)
        ev.setdefault('msg', '')
        self.log.append(ev)

    def own(self, *arrays):
        for a in arrays:
            if isinstance(a, np.ndarray) or (torch is not None and torch.is_tensor(a)):
                self.bufs.append(a)

    def build(self, a):
        it, s = self.it, self.it['cfgs'][a['c'] - 1]
        be = s['be']
        ev = dict(op='build', o=a['o'], c=a['c'], before=stream(it['real']), flows='', after='', argsok=True, shares=False,
                  warned=False, periodic=False, complete=True)
        v = a['v'] if it['vary'] == 'returns' else 1
        f, ft, U = user_functions(s, v)
        c = Caller('settings' in it['ask'])
        if self.watch:
            f, ft, U = c.wrap('f', f), c.wrap('ftrue', ft), c.wrap('U', U)
        y1, y2 = contain(s['y1'], a['box'], be), contain(s['y2'], a['box'], be)
        if s['ytype'] == 'i8':
            y1, y2 = np.array(s['y1']).astype(int), np.array(s['y2']).astype(int)
        g = np.array(s['g']).reshape(-1, 1) if s['gform'] == 'col' else (int(s['g'][0]) if s['gform'] == 'int' else s['g'][0])
        kw = dict(reweight=s['rw'], brown_bridge=s['bb'], deterministic=s['det'])
        if s['rw']:
            kw['U'] = U
            if s['bb']:
                kw['f_true'] = ft
        if it['vary'] == 'options':
            kw.update(OPTIONS[a['v']])
            ev['periodic'] = kw.get('kern') == 'periodic'
        before = dig(y1, y2, np.asarray(g))
        warned[0] = 0
        try:
            o = (mod.DPFC if be == 'np' else mod.torched_DPFC)(s['t1'], s['t2'], y1, y2, f, g, s['N'], s['M'], **kw)
            ev['warned'] = warned[0] > 0
            ev['complete'] = all(tuple(F.shape) == (s['dim'], s['N'], len(o.timegrid)) for F in flows(o))
            ev['argsok'] = dig(y1, y2, np.asarray(g)) == before
            ev['shares'] = any(share(F, b) for F in flows(o) for b in [y1, y2] + [x for x in self.bufs])
            ev['flows'] = dig(*flows(o), o.timegrid)
            self.objs[a['o']] = o
            self.cfg[a['o']] = s
            self.conf[a['o']] = a['c']
            self.callers[a['o']] = c
            self.gen[a['o']] = len(self.log) + 1
            self.own(y1, y2, g)
        except Exception:
            ev['err'], ev['msg'] = True, traceback.format_exc(limit=-3)
        ev['after'] = stream(it['real'])
        self.inside = c.inside
        self.state(ev)

    def fail(self, a):
        it, s = self.it, self.it['cfgs'][a['c'] - 1]
        cls = mod.DPFC if s['be'] == 'np' else mod.torched_DPFC

        def args(c):
            f, ft, U = user_functions(s, 1)
            y1, y2 = contain(s['y1'], a['box'], s['be']), contain(s['y2'], a['box'], s['be'])
            g = np.array(s['g']).reshape(-1, 1) if s['gform'] == 'col' else s['g'][0]
            kw = dict(reweight=s['rw'], brown_bridge=s['bb'], deterministic=s['det'])
            if s['rw']:
                kw['U'] = c.wrap('U', U)
                if s['bb']:
                    kw['f_true'] = c.wrap('ftrue', ft)
            return (s['t1'], s['t2'], y1, y2, c.wrap('f', f), g, s['N'], s['M']), kw
        ev = dict(op='fail', o=a['o'], c=a['c'], reached='none', thrown=False, later=0, argsok=True, kind='', type='')
        try:
            if a['c'] not in CALLS.setdefault(id(it), {}):    # how often are the functions called
                state = (np.random.get_state(), torch.get_rng_state() if torch is not None else None, random.getstate())
                c = Caller(False)
                p, kw = args(c)
                cls(*p, **kw)
                CALLS[id(it)][a['c']] = c.n
                np.random.set_state(state[0])
                if torch is not None:
                    torch.set_rng_state(state[1])
                random.setstate(state[2])
            n = CALLS[id(it)][a['c']]
            kinds = [q for q in ('f', 'ftrue', 'U') if n[q] > 0]
            kind = a['name'] if 'name' in a else kinds[a['kind'] % len(kinds)]
            c = Caller('settings' in it['ask'])
            c.exc = errors()[a['exc'] % len(errors())]
            last = n[kind]
            c.at = (kind, {1: 1, 2: 1 + min(last - 1, int(a['where'] * last)), 3: last}[a['n']])
            ev['kind'], ev['type'] = kind, type(c.exc).__name__
            p, kw = args(c)
            before = dig(p[2], p[3], np.asarray(p[5]))
        except Exception:
            ev['err'], ev['msg'] = True, traceback.format_exc(limit=-3)
            return self.state(ev)
        try:
            cls(*p, **kw)
            ev['reached'] = 'none'
        except BaseException as e:
            ev['reached'] = 'same' if e is c.exc else 'other'
            ev['msg'] = traceback.format_exc(limit=-3) if e is not c.exc else ''
            e.__traceback__ = None
        ev['thrown'], ev['later'] = c.fired, c.later
        ev['argsok'] = dig(p[2], p[3], np.asarray(p[5])) == before
        self.own(p[2], p[3], p[5])
        self.inside = c.inside
        self.state(ev)

    def badquery(self, a):
        s, o = self.cfg[a['o']], self.objs[a['o']]
        k = len(o.timegrid)
        i = [k, k + 1, 3 * k + 2, -k - 1][a['exc'] % 4]
        pts = self.points(s, [1, 2])
        pts = torch.as_tensor(pts) if s['be'] == 'th' else pts
        before = dig(pts)
        ev = dict(op='badquery', o=a['o'], i=i, raised=False, what=a['what'], argsok=True)
        try:
            if a['what'] == 'force':
                self.bad_force(a, s, o, ev)
            elif a['what'] == 'control':
                o.calculate_u(pts, i)
            else:
                o.check_if_covered(pts[0], i)
        except Exception:
            ev['raised'] = True
        ev['argsok'] = dig(pts) == before
        self.state(ev)

    def bad_force(self, a, s, o, ev):
        """the drift raises when the force wrapper asks for it"""
        c = self.callers[a['o']]
        name = 'ftrue' if s['rw'] and s['bb'] and a['kind'] % 2 else 'f'
        x = self.points(s, [1, 2, 4]).T.copy()
        x = torch.as_tensor(x) if s['be'] == 'th' else x
        c.inside = []
        c.exc, c.at, c.fired = errors()[a['exc'] % len(errors())], (name, c.n[name] + 1), False
        try:
            (o.f_seperate_true if name == 'ftrue' else o.f_seperate)(x, s['t1'])
        except BaseException as e:
            ev['raised'] = e is c.exc
            e.__traceback__ = None
        c.exc, c.fired, c.inside = None, False, []

    def configure(self, a):
        configure(a['v'])
        self.state(dict(op='configure'))

    def points(self, s, ids):
        rng = np.random.Generator(np.random.PCG64(self.it['pseed']))
        y1, y2 = np.array(s['y1']), np.array(s['y2'])
        P = np.minimum(y1, y2) - .1 + (np.abs(y2 - y1) + .2) * rng.random((8, s['dim']))
        P[2] += 10.0 ** rng.integers(0, 4) * rng.choice([-1, 1], s['dim'])      # outside of everything the flows cover
        P[4] = 10.0 ** rng.integers(3, 8) * rng.choice([-1, 1], s['dim'])
        return P[np.array(ids) - 1]

    def index(self, s, name):
        k = s['k']
        return {'first': 1, 'edge': k - 5, 'inner': 6, 'inner2': k - 6, 'late': k - 2, 'last': k - 2}[name]

    def control(self, a):
        it, s, o = self.it, self.cfg[a['o']], self.objs[a['o']]
        i = self.index(s, a['i'])
        pts = contain(self.points(s, a['b']), a['box'], s['be'])
        if s['be'] == 'th' and not torch.is_tensor(pts):
            pts = torch.as_tensor(pts)
        if a['box'] == 'reuse' and (s['be'], len(a['b'])) in self.asked:     # new points written into the array of an earlier query
            n = self.asked[s['be'], len(a['b'])]
            if torch.is_tensor(self.bufs[n]) if torch is not None else False:
                self.bufs[n].copy_(pts)
            else:
                self.bufs[n][...] = pts
            self.state(dict(op='scribble'), n + 1)
            pts = self.bufs[n]
        elif a['box'] == 'reuse':
            self.asked[s['be'], len(a['b'])] = len(self.bufs)
        before = dig(pts)
        ev = dict(op='control', o=a['o'], i=i, b=a['b'], flows=dig(*flows(o), o.timegrid), before=stream(it['real']), res=[], digest='',
                  argsok=True, shares=False)
        try:
            r = o.calculate_u(pts, i)
            ev['res'] = arr(to_np(r))
            ev['digest'] = dig(r)
            ev['argsok'] = dig(pts) == before
            ev['shares'] = any(share(r, x) for x in flows(o) + [pts])
            self.own(*([] if any(pts is x for x in self.bufs) else [pts]), r)
        except Exception:
            ev['err'], ev['msg'] = True, traceback.format_exc(limit=-3)
        ev['after'] = stream(it['real'])
        self.state(ev)

    def cover(self, a):
        it, s, o = self.it, self.cfg[a['o']], self.objs[a['o']]
        i = {'first': 0, 'last': s['k'] - 1}.get(a['i'], self.index(s, a['i']))
        pts = contain(self.points(s, a['b'])[0], a['box'], s['be'])
        if s['be'] == 'th' and not torch.is_tensor(pts):
            pts = torch.as_tensor(pts)
        before = dig(pts)
        ev = dict(op='cover', o=a['o'], i=i, b=a['b'], flows=dig(*flows(o), o.timegrid), before=stream(it['real']), cov=False, argsok=True)
        try:
            ev['cov'] = bool(o.check_if_covered(pts, i))
            ev['argsok'] = dig(pts) == before
            self.own(pts)
        except Exception:
            ev['err'], ev['msg'] = True, traceback.format_exc(limit=-3)
        ev['after'] = stream(it['real'])
        self.state(ev)

    def force(self, a):
        """a force wrapper given to an integrator: any batch, any time"""
        it, s, o = self.it, self.cfg[a['o']], self.objs[a['o']]
        x = contain(self.points(s, a['b']).T, a['box'], s['be'])
        if s['be'] == 'th' and not torch.is_tensor(x):
            x = torch.as_tensor(x)
        true = a['fn'] == 'ftrue' and s['rw'] and s['bb']
        t = s['t1'] + a['t'] * s['k'] * .001
        before = dig(x)
        c = self.callers[a['o']]
        c.inside = []
        ev = dict(op='force', o=a['o'], c=self.conf[a['o']], fn='ftrue' if true else 'f', t='%.17g' % t, b=a['b'], before=stream(it['real']), digest='', argsok=True, shares=False)
        try:
            r = (o.f_seperate_true if true else o.f_seperate)(x, t)
            ev['digest'] = dig(r)
            ev['argsok'] = dig(x) == before
            ev['shares'] = any(share(r, y) for y in flows(o) + [x])
            self.own(x, r)
        except Exception:
            ev['err'], ev['msg'] = True, traceback.format_exc(limit=-3)
        ev['after'] = stream(it['real'])
        self.inside = c.inside
        self.state(ev)

    def scribble(self, a):
        if not self.bufs:
            return
        n = (a['rank'] - 1) % len(self.bufs)
        b = self.bufs[n]
        if torch is not None and torch.is_tensor(b):
            with torch.no_grad():
                b.copy_(torch.full_like(b, 77) + b)
        elif b.flags.writeable:
            b[...] = b + 77
        self.state(dict(op='scribble'), n + 1)

    def call(self, a):
        import purecalls
        ev = dict(op='call', fn=a['fn'], argsok=True, shares=False)
        try:
            args, res = purecalls.prepare(a, np.random.Generator(np.random.PCG64(a['s'])))
            before = [dig(x) for x in args]
            results = res(*args)
            ev['argsok'] = [dig(x) for x in args] == before
            ev['shares'] = any(share(r, x) for r in results for x in args)
        except Exception:
            ev['err'], ev['msg'] = True, traceback.format_exc(limit=-3)
        self.state(ev)


def run(it):
    ses = Session(it)
    seed(0, it['real'])
    states = []
    for a in it['ops']:
        states = states[:len(ses.log)] + [None] * (len(ses.log) - len(states))
        if not it['real']:
            if 'rng' in a:
                tap.rng.bit_generator.state = a['rng']
            states.append(dict(a, rng=tap.rng.bit_generator.state, gen=ses.gen.get(a.get('o'), 0)))
        if a['op'] == 'seed':
            seed(a['s'], it['real'])
            ses.state(dict(op='seed'))
        elif a['op'] in ('control', 'cover', 'force', 'badquery'):
            if a['o'] in ses.objs:
                getattr(ses, a['op'])(a)
        else:
            getattr(ses, a['op'])(a)
    tap.stop()
    return dict(dim=it['cfgs'][0]['dim'], ask=it['ask'], log=ses.log, names=SETTINGS, states=states[:len(ses.log)])


if __name__ == '__main__':
    items = json.load(open(sys.argv[1]))
    home = os.getcwd()
    procset.SCRATCH = tempfile.mkdtemp(prefix='verif-session-')
    os.mkdir(os.path.join(procset.SCRATCH, 'sub'))
    OUT = io.StringIO()
    real, sys.stdout = sys.stdout, OUT
    try:
        res = [run(i) for i in items]
    finally:
        sys.stdout = real
        os.chdir(home)
        shutil.rmtree(procset.SCRATCH, ignore_errors=True)
    json.dump(res, open(sys.argv[2], 'w'))
