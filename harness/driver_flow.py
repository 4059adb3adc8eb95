"""Runs scenarios on the real controllers and writes traces for spec/TraceFlow.tla.
usage: driver_flow.py scenarios.json traces.json"""
import json
import logging
import os
import sys
import tempfile
import traceback
import warnings

import numpy as np
import rngtap
from enc import arr, num, dec
import replica
from screen import Screen

rngtap.install()
warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)
tap = rngtap.tap
from DeterministicParticleFlowControl import DeterministicParticleFlowControl as mod  # noqa: E402
import DeterministicParticleFlowControl as pkg  # noqa: E402
try:
    import torch
except ImportError:
    torch = None


def to_np(a):
    if torch is not None and torch.is_tensor(a):
        return a.detach().cpu().double().numpy()
    return np.asarray(a, dtype=float)


def make_callback(name, polys, s, log):
    """a user function built from polynomials; scalar output for a single polynomial"""
    scalar = name == 'U'
    cache = {}

    def fn(x, t):
        is_t = torch is not None and torch.is_tensor(x)
        log.append((name, np.array(to_np(x), copy=True), float(to_np(t)) if np.ndim(to_np(t)) == 0 else to_np(t)))
        tt = t
        rows = []
        for p in (polys if not scalar else [polys]):
            v = 0 * x[0]
            for m in p:
                w = m['c'] * (tt ** m['p'] if m['p'] else 1.0)
                for d, e in enumerate(m['e']):
                    if e:
                        w = w * x[d] ** e
                v = v + w
            rows.append(v)
        worst = max(float(abs(to_np(r)).max()) if np.size(to_np(r)) else 0.0 for r in rows)
        if not worst < (7e5 if scalar else 1e9):       # exp(U dt) no longer representable, or diverging
            log.append(('blowup', None, None))
        if scalar:
            return rows[0]
        out = torch.stack(rows) if is_t else np.stack(rows)
        if s.get('ret') == 'cached':       # the same buffer is handed out on every call
            if 'b' not in cache:
                cache['b'] = out
            else:
                cache['b'][...] = out
            return cache['b']
        return out
    return fn


def build(s, log=None):
    log = [] if log is None else log
    y1, y2 = np.array(s['y1']), np.array(s['y2'])
    if s['ytype'] == 'i8':
        y1, y2 = y1.astype(int), y2.astype(int)
    elif s['ytype'] == 'f4':
        y1, y2 = y1.astype(np.float32), y2.astype(np.float32)
    elif s['ytype'] == 'f4end':
        y2 = y2.astype(np.float32)
    elif s['ytype'] == 'th4':
        y1, y2 = torch.tensor(y1, dtype=torch.float32), torch.tensor(y2, dtype=torch.float32)
    elif s['ytype'] == 'thint':
        y1, y2 = torch.tensor(np.rint(y1)).long(), torch.tensor(np.rint(y2)).long()
    elif s['ytype'] == 'tensor':
        y1, y2 = torch.tensor(y1, dtype=torch.float64), torch.tensor(y2, dtype=torch.float64)
    elif s['ytype'] == 'view':
        y1, y2 = np.repeat(y1, 2)[::2], np.repeat(y2, 3)[::3]
    g = {'float': lambda: s['g'][0], 'int': lambda: int(s['g'][0]),
         'col': lambda: np.array(s['g']).reshape(-1, 1)}[s['gform']]()
    kw = dict(reweight=s['rw'], brown_bridge=s['bb'], deterministic=s['det'])
    if s['rw']:
        kw['U'] = make_callback('U', s['U'], s, log)
        if s['bb']:
            kw['f_true'] = make_callback('ftrue', s['ftrue'], s, log)
    if s['seed'] % 3 == 0:      # functions that are given but have no role in this mode
        kw.setdefault('U', make_callback('U', s['U'], s, log))
        kw.setdefault('f_true', make_callback('ftrue', s['ftrue'], s, log))
    kw.update(s.get('kw', {}))
    cls = mod.DPFC if s['be'] == 'np' else mod.torched_DPFC
    f = make_callback('f', s['f'], s, log)
    return cls(s['t1'], s['t2'], y1, y2, f, g, s['N'], s['M'], **kw)


def query_points(q, s, Z, B, T):
    rng = np.random.Generator(np.random.PCG64(q['s']))
    i = q['i']
    if q['op'] == 'force':
        if q['kind'] == 'own':         # a column of a flow
            return (B if i % 2 and i < s['k'] - 1 else Z)[:, :, i].T.copy()
        w = 10.0 ** rng.uniform(-1.5, .5, s['dim'])
        if q['kind'] == 'equal':
            w[:] = w[0]
        return (np.array(s['y1']) + rng.uniform(-1, 1, s['dim'])
                + w * (rng.standard_normal((q['K'], s['dim'])) if q['kind'] == 'gauss' else rng.random((q['K'], s['dim']))))
    F = T if (s['rw'] and s['bb']) else Z
    if q['op'] == 'control':
        both = np.concatenate([F[:, :, i], B[:, :, i]], 1)
        lo, hi = both.min(1), both.max(1)
        w = (hi - lo) * (2.0 if q['far'] else 0.3)
        return lo - w + (hi - lo + 2 * w) * rng.random((q['K'], s['dim']))
    z0, z1, b0, b1 = Z[:, :, i].min(1), Z[:, :, i].max(1), B[:, :, i].min(1), B[:, :, i].max(1)
    lo, hi = np.maximum(z0, b0), np.minimum(z1, b1)
    kd = q['kind']
    u = rng.random(s['dim'])
    x = lo + (hi - lo) * u
    if kd == 'zonly':
        x = z0 + (z1 - z0) * u
    elif kd == 'bonly':
        x = b0 + (b1 - b0) * u
    elif kd == 'out':
        x = np.maximum(z1, b1) + 0.1 + u
    elif kd == 'edge_lo':
        x = lo.copy()
    elif kd == 'edge_hi':
        x = hi.copy()
    elif kd == 'just_out':
        d = rng.integers(s['dim'])
        # the next double, or the next one that 24 decimals tell apart
        x[d] = (max(np.nextafter(hi[d], np.inf), hi[d] + 1e-20) if rng.random() < .5
                else min(np.nextafter(lo[d], -np.inf), lo[d] - 1e-20))
    elif kd == 'onedim':
        d = rng.integers(s['dim'])
        x[d] = (hi[d] + 0.5 * (hi[d] - lo[d]) + 1e-3) if rng.random() < .5 else lo[d] - 0.5 * (hi[d] - lo[d]) - 1e-3
    elif kd == 'y1':
        x = np.array(s['y1'])
    elif kd == 'rand':
        a, b = np.minimum(z0, b0), np.maximum(z1, b1)
        x = a + (b - a) * (u * 1.4 - .2)
    return x.reshape(1, -1)


KEPT = {}


def hand_out(a, q, be, key):
    """the array as a fresh one, in another memory layout, or written into the array of the previous such query"""
    style = ('fresh', 'fortran', 'strided', 'same')[q['s'] % 4]
    if style == 'strided':
        big = np.full(tuple(2 * n for n in a.shape), 3.25)
        x = big[tuple(slice(None, None, 2) for _ in a.shape)]
        x[...] = a
    else:
        x = np.array(a, order='F' if style == 'fortran' else 'C')
    if be == 'th':
        x = torch.as_tensor(x)
    if style != 'same':
        return x
    key += (be, a.shape)
    if key in KEPT:
        KEPT[key][...] = x
    return KEPT.setdefault(key, x)


def run_query(o, q, s, Z, B, T):
    pts = query_points(q, s, Z, B, T)
    ev = dict(op=q['op'], i=q['i'], pts=arr(pts), err=False, res=[], cov=False)
    if q['op'] == 'force':
        ev.update(fn=q['fn'], t=num(q['t']), kept=True)
    try:
        if q['op'] == 'force':
            x = hand_out(pts.T, q, s['be'], ('force',))
            a = to_np(x).copy()
            fn = o.f_seperate_true if q['fn'] == 'ftrue' else o.f_seperate
            res = to_np(fn(x, q['t'])).copy()
            ev['res'] = arr(res)
            flows = [(o.Z, Z), (o.B, B)] + ([(o.Ztr, T)] if T is not None else [])
            ev['kept'] = bool((to_np(x) == a).all() and all(np.array_equal(to_np(p), r, equal_nan=True) for p, r in flows))
        elif q['op'] == 'control':
            x = hand_out(pts, q, s['be'], ('control',))
            ev['res'] = arr(to_np(o.calculate_u(x, q['i'])))
        else:
            x = hand_out(pts[0], q, s['be'], ('cover',))
            ev['cov'] = bool(o.check_if_covered(x, q['i']))
    except Exception:
        ev['err'] = True
        ev['msg'] = traceback.format_exc(limit=-3)
    return ev


def fit_query(scr, ev, draws):
    """how badly the answer fits, in units of the tolerance (screening only)"""
    if ev['err']:
        return float('inf')
    try:
        pts = np.array([[float(dec(v)) for v in p] for p in ev['pts']])
        if ev['op'] == 'cover':
            return scr.cover(ev['i'], pts[0], ev['cov'])
        if ev['op'] == 'force':
            return 0.0
        r = scr.control(ev['i'], pts, np.array([[float(dec(v)) for v in p] for p in ev['res']]), draws)
        return r if r == r else float('inf')
    except Exception:
        return float('inf')


def cols(A, keep):
    k = A.shape[2]
    return [arr(A[:, :, i]) if i in keep else [] for i in range(k)]


def blocks(flat, size, need):
    n = len(flat) // size if size else 0
    return [([num(v) for v in flat[b * size:(b + 1) * size]] if b in need else []) for b in range(n)]


def draw_plan(s):
    """cell -> indices of its normal block and uniform blocks, in the order of Flow"""
    plan, nb, ub = {}, 0, 0
    k = s['k']

    def put(c, noise, grads):
        nonlocal nb, ub
        plan[c] = (nb if noise else None, list(range(ub, ub + grads)))
        nb += 1 if noise else 0
        ub += grads
    for i in range(1, k):
        put(('Z', i), i == 1 or not s['det'], 1 if s['det'] and i > 1 else 0)
    if s['rw'] and s['bb']:
        for i in range(1, k):
            put(('T', i), i == 1, 0 if i == 1 else 1)
    for i in range(k - 2, 0, -1):
        noisy = i == k - 2 or not s['det']
        put(('B', i), noisy, 1 if noisy else 2)
    return plan, nb, ub


def canonical(s, n0, u0, T):
    """the random numbers in the order in which Flow draws them: the true-drift flow may as well be
    sampled before the forward or after the backward flow (each number is still used once)"""
    k, sn, su = s['k'], s['dim'] * s['N'], s['dim'] * s['M']
    plan, nN, nU = draw_plan(s)
    nz, uz = (1, k - 2) if s['det'] else (k - 1, 0)
    nb, ut = nN - nz - 1, k - 2
    ub = nU - uz - ut
    if T is None or k < 2 or len(n0) != (nz + 1 + nb) * sn or len(u0) != (uz + ut + ub) * su:
        return n0, u0
    y1, g = np.array(s['y1'], dtype=float).reshape(-1, 1), np.array(s['g'], dtype=float).reshape(-1, 1)
    x = np.repeat(y1, s['N'], axis=1)
    f = np.stack([0 * x[0] + to_np(make_callback('U', p, s, [])(x, s['t1'])) for p in s['ftrue']])
    noise = np.sort(((T[:, :, 1] - x - .001 * f) / (g * np.sqrt(.001))).ravel())

    def fits(b):
        w = np.sort(np.array(n0[b * sn:(b + 1) * sn]))
        return bool(abs(w - noise).max() < 1e-4)
    if fits(nz):
        return n0, u0
    if fits(0):
        return (n0[sn:(1 + nz) * sn] + n0[:sn] + n0[(1 + nz) * sn:],
                u0[ut * su:(ut + uz) * su] + u0[:ut * su] + u0[(ut + uz) * su:])
    if fits(nz + nb):
        return (n0[:nz * sn] + n0[(nz + nb) * sn:] + n0[nz * sn:(nz + nb) * sn],
                u0[:uz * su] + u0[(uz + ub) * su:] + u0[uz * su:(uz + ub) * su])
    return n0, u0


def run(s):
    """particles that blow up (exp(U dt) not representable) or that degenerate weights
    put in one place leave what the properties speak about; other random numbers
    are then tried, and the last execution is judged whatever it is"""
    for n in range(5):
        log = []
        tr = run_once(dict(s, seed=s['seed'] + 1000003 * n), log)
        if not any(c[0] == 'blowup' for c in log):
            break
    return tr


def run_once(s, log):
    tap.start(s['seed'])
    tr = dict(cfg=dict(be=s['be'], det=s['det'], rw=s['rw'], bb=s['bb'], k=s['k']), N=s['N'], M=s['M'],
              dim=s['dim'], want=s['want'], err='')
    try:
        o = build(s, log)
        Z, B = to_np(o.Z), to_np(o.B)
        T = to_np(o.Ztr) if s['rw'] and s['bb'] else None
        shape = (s['dim'], s['N'], s['k'])
        for nm, A in (('Z', Z), ('B', B), ('T', T)):
            if A is not None and A.shape != shape:
                raise ValueError('flow %s has shape %r instead of %r' % (nm, A.shape, shape))
    except Exception:
        tap.stop()
        tr['err'] = traceback.format_exc(limit=-4)
        return tr
    n0, u0 = list(tap.n), list(tap.u)
    if T is not None and np.isfinite(T).all():
        n0, u0 = canonical(s, n0, u0, T)
    calls = [c for c in log if c[0] != 'blowup']
    finite = all(np.isfinite(A).all() for A in (Z, B) + ((T,) if T is not None else ()))
    plan, nN, nU = draw_plan(s)
    if s['rw'] and finite and s['N'] > 1:
        sp = (Z.max(1) - Z.min(1))[:, 1:]
        if (sp < 1e-9 * (1 + abs(Z[:, :, 1:]).max(1))).any():      # degenerate weights: all particles in one place
            log.append(('blowup', None, None))
    scr = Screen(s, Z, B, T, n0, u0, plan) if finite and s.get('screen') else None
    qs, qdraws, fits = [], [], []
    for q in s['queries'] if finite else []:
        a = len(tap.u)
        ev = run_query(o, q, s, Z, B, T)
        qs.append(ev)
        qdraws.append(tap.u[a:])
        if scr is not None:
            fits.append(fit_query(scr, ev, qdraws[-1]))
    tap.stop()
    if scr is not None and len(qs) > s['screen']['queries']:
        order = sorted(range(len(qs)), key=lambda j: -fits[j])[:s['screen']['queries']]
        # the worst ones, and the first ones of the list whatever they are
        kept = sorted(set(order) | set(range(2)))
        qs, qdraws = [qs[j] for j in kept], [qdraws[j] for j in kept]
    qflat = [v for d in qdraws for v in d]
    if s['sample'] is None:
        cells = [(f, i) for f in 'ZBT' for i in range(s['k'])]
    else:
        cells = [tuple(c) for c in s['sample']]
    if scr is not None and s['screen']['cells']:
        cells += scr.cells([f for f in 'ZTB' if s['want'][f]], s['screen']['cells'])
    if not finite:          # columns with values that are no numbers
        cells += [(f, i) for f, A in (('Z', Z), ('B', B), ('T', T)) if A is not None and s['want'][f]
                  for i in range(s['k']) if not np.isfinite(A[:, :, i]).all()][:4]
    # columns and blocks that are needed for the cells in question
    keep = {'Z': set(), 'B': set(), 'T': set()}
    needn, needu = set(), set()
    for f, i in cells:
        keep[f].add(i)
        if f in 'ZT' and i > 0:
            keep[f].add(i - 1)
        if f == 'B' and 0 < i < s['k'] - 1:
            keep['B'].add(i + 1)
            keep['Z'].add(i + 1)
        if (f, i) in plan:
            a, b = plan[(f, i)]
            needn |= {a} if a is not None else set()
            needu |= set(b)
    for q in qs:
        for f in ('Z', 'B', 'T'):
            keep[f].add(q['i'])
    if s['want']['full'] or s['want']['calls']:
        keep = {f: set(range(s['k'])) for f in 'ZBT'}
    tr['calls'] = []
    if s['want']['calls']:
        needn, needu = set(range(nN)), set(range(nU))
        for fn, x, t in calls:
            ok = x.shape == (s['dim'], s['N'])
            sc = np.ndim(t) == 0
            tr['calls'].append(dict(fn=fn, x=arr(x) if ok else [], scalar=bool(sc), t=num(t) if sc else num(np.ravel(t)[0] if np.size(t) else np.nan)))
    tr.update(t1=num(s['t1']), g=arr(s['g']), y1=arr(s['y1']), y2=arr(s['y2']),
              f=enc_polys(s['f']), ftrue=enc_polys(s['ftrue']), U=enc_polys([s['U']])[0],
              Z=cols(Z, keep['Z']), B=cols(B, keep['B']), T=cols(T, keep['T']) if T is not None else [])
    tr['cells'] = {f: sorted({i for c, i in cells if c == f}) for f in 'ZBT'}
    extra = range(nU, nU + len(qs) + 1)
    tr['nb'] = blocks(n0, s['dim'] * s['N'], needn)
    # query blocks directly follow those of the construction
    tr['ub'] = blocks(u0[:], s['dim'] * s['M'], needu)
    if len(u0) == nU * s['dim'] * s['M']:
        tr['ub'] += blocks(qflat, s['dim'] * s['M'], set(range(len(qs))))
    else:
        tr['ub'] = tr['ub'][:nU] + [[]] * (nU - len(tr['ub'])) + blocks(qflat, s['dim'] * s['M'], set(range(len(qs))))
    tr['q'] = qs
    tr['wit'] = [[] for _ in range(s['k'])]
    if s['rw'] and s['want']['Z'] and finite:
        info = dict(Z=Z, t1=s['t1'], f=s['f'], g=s['g'], be=s['be'], M=s['M'])
        for f, i in cells:
            if f != 'Z' or i == 0:
                continue
            a, b = plan[('Z', i)]
            try:
                sz = s['dim'] * s['N']
                nbk = n0[a * sz:(a + 1) * sz] if a is not None else None
                su = s['dim'] * s['M']
                ubk = u0[b[0] * su:(b[0] + 1) * su] if b else None
                best = None
                for pre in replica.predictions(info, i, nbk, ubk):
                    w = replica.witness(pre, Z[:, :, i], s['U'], s['t1'] + i * 0.001, s['be'])
                    if best is None or w[3] < best[3]:
                        best = w
                tr['wit'][i] = replica.wit_json(best[0], best[1], best[2], arr)
            except Exception:
                tr['wit'][i] = dict(plan=[], u=arr([0.0] * s['N']), v=arr([0.0] * s['N']))
    for i in range(s['k']):
        if tr['wit'][i] == []:
            tr['wit'][i] = dict(plan=[], u=[], v=[])
    return tr


def enc_polys(ps):
    return [[dict(c=num(m['c']), e=m['e'], p=m['p']) for m in p] for p in ps]


def run_apart(s):
    """Large torch controllers: memory of their graphs of derivatives is only given back by ending the process."""
    with tempfile.TemporaryFile('w+') as f:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                json.dump(run(s), f)
                f.flush()
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush()
                os._exit(code)
        if os.waitpid(pid, 0)[1] != 0:
            raise RuntimeError('the process of a scenario failed')
        f.seek(0)
        return json.load(f)


if __name__ == '__main__':
    scen = json.load(open(sys.argv[1]))
    out = []
    for s in scen:
        out.append(run_apart(s) if s['be'] == 'th' and s['N'] * s['k'] > 2000 else run(s))
    json.dump(out, open(sys.argv[2], 'w'))
