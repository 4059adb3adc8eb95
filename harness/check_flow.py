"""Checks of the properties decided by Flow.tla / TraceFlow.tla."""
import copy
import random

import common
import flowprops
from enc import num, dec, limbs

ASSUME = ['random numbers reach the code through numpy.random / torch sampling functions, which the harness replaces by logged draws',
          'user callbacks are polynomials in state and time',
          'tolerances: gradients 1e-8 (numpy) and 1e-6 (pytorch, single-precision identity matrices in the code) of the sum of magnitudes of the summed terms',
          'exhaustive design check for grid lengths up to the bound in models; recorded executions for the sampled inputs']


def bump(v, eps):
    """a number changed by the relative amount eps (or to eps when zero)"""
    x = dec(v)
    return num(x + (abs(x) + 1e-3) * eps)


def corrupt(tr, rng, pid):
    """a copy of the trace with one recorded fact changed so that it must be rejected"""
    t = copy.deepcopy(tr)
    w = t['want']
    k = t['cfg']['k']
    choices = []
    cover = [q for q in t['q'] if q['op'] == 'cover' and not q['err']]
    ctrl = [q for q in t['q'] if q['op'] == 'control' and not q['err'] and q['res']]
    if w['cover'] and cover:
        choices.append('cover')
    force = [q for q in t['q'] if q['op'] == 'force' and not q['err'] and q['res']]
    if w['force'] and force:
        choices += ['force'] * 2
    if w['control'] and ctrl:
        choices.append('control')
    cols = []
    for f in 'ZTB':
        if w[f] and t[f]:
            for i in range(k):
                if not t[f][i]:
                    continue
                base = i - 1 if f in 'ZT' else i + 1
                if f == 'B' and i == 0 or f == 'B' and i == k - 1 or i == 0:
                    if w['pin']:
                        cols.append((f, i))
                elif t[f][base] and (f != 'B' or t['Z'][base]):
                    cols.append((f, i))
    if w['full']:
        choices += ['full']
    if w['calls'] and t['calls']:
        choices += ['calls']
    if cols:
        choices += ['col', 'noise' if t['nb'] and any(t['nb']) else 'col']
    if not choices:
        return None
    c = rng.choice(choices)
    if c == 'full':
        f, i = rng.choice([(f, i) for f in 'ZTB' if t[f] for i in range(1, k - (f == 'B'))] or [('Z', 1)])
        d, n = rng.randrange(t['dim']), rng.randrange(t['N'])
        v = rng.choice(['zero', 'stay', 'nan'])
        t[f][i][d][n] = {'zero': [0], 'nan': [2]}.get(v) or t[f][i + 1 if f == 'B' else i - 1][d][n]
        c = '%s in %s column %d' % (v, f, i)
    elif c == 'calls':
        q = rng.randrange(len(t['calls']))
        a = t['calls'][q]
        v = rng.choice(['time', 'state', 'fn'])
        if v == 'time':
            a['t'] = num(dec(a['t']) + rng.choice([-1, 1]) * 1e-3)
        elif v == 'state':
            d, n = rng.randrange(t['dim']), rng.randrange(t['N'])
            a['x'][d][n] = num(dec(a['x'][d][n]) + 1e-3 * (1 + abs(dec(a['x'][d][n]))))
        else:
            a['fn'] = 'ftrue' if a['fn'] != 'ftrue' else 'f'
        c = '%s of call %d' % (v, q)
        if v == 'fn' and k == 2:
            return None
    elif c == 'cover':
        q = rng.choice(cover)
        q['cov'] = not q['cov']
    elif c == 'force':
        q = rng.choice(force)
        d = rng.randrange(len(q['res']))
        n = rng.randrange(len(q['res'][d]))
        v = rng.choice(['value', 'time', 'kept'])
        if v == 'value':
            x = max(abs(dec(v)) for row in q['res'] for v in row)      # ill-conditioned sums tolerate much
            q['res'][d][n] = num(dec(q['res'][d][n]) + 1e3 * (1 + x))
        elif v == 'time':       # every drift depends on time
            q['t'] = num(dec(q['t']) + 1e3 * (1 + max(abs(dec(v)) for row in q['res'] for v in row)))
        else:
            q['kept'] = False
        c = 'force %s' % v
    elif c == 'control':
        q = rng.choice(ctrl)
        d = rng.randrange(len(q['res']))
        n = rng.randrange(len(q['res'][d]))
        x = dec(q['res'][d][n])
        q['res'][d][n] = num(x * 1.01 + (1.0 if x == 0 else 0))
        if abs(x) < 1e-3:        # far from the flows both gradients vanish
            q['res'][d] = [num(dec(v) + 1e6) for v in q['res'][d]]
    else:
        f, i = rng.choice(cols)
        d = rng.randrange(t['dim'])
        n = rng.randrange(t['N'])
        x = dec(t[f][i][d][n])
        step = 1e-4 * (1 + abs(x))
        if f == 'Z' and i > 0 and t['cfg']['rw']:      # what is tolerated after reweighting depends on the cost
            step += max(max(dec(v) for v in row) - min(dec(v) for v in row) for row in t[f][i])
        t[f][i][d][n] = num(x + step)
        c = '%s column %d' % (f, i)
    t['corrupted'] = c
    return t


def describe(s, tr):
    return 'backend=%s deterministic=%s reweight=%s bridge=%s k=%d dim=%d N=%d M=%d t1=%g g=%s seed=%d' % (
        s['be'], s['det'], s['rw'], s['bb'], s['k'], s['dim'], s['N'], s['M'], s['t1'], s['gform'], s['seed'])


def run(ctx, only=None):
    mc = common.tlc_start(ctx, 'MCFlow', 'MCFlow_deep' if ctx.deep else 'MCFlow', workers=4)
    scen = only if only is not None else flowprops.scenarios(ctx.pid, ctx.seed, ctx.deep)
    state = dict(steps=0, controls=0, clean=True)
    size = 600          # executions recorded and judged at a time, so that memory stays bounded
    parts = [scen[a:a + size] for a in range(0, len(scen), size)] or [[]]
    for n, part in enumerate(parts):
        trs = common.drive(ctx, 'driver_flow.py', part)
        if n == 0:
            common.model_finish(ctx, mc, 'MCFlow')
        batch(ctx, part, trs, state, n, max(1, -(-(12 if ctx.deep else 5) // len(parts))))
    ctx.extra['steps_compared'] = state['steps']
    if state['clean'] and not ctx.violations and (state['steps'] == 0 or not state['controls']):
        raise common.Machinery('nothing was compared')
    return ASSUME


def batch(ctx, scen, trs, state, nth, controls):
    good = []
    for s, t in zip(scen, trs):
        if 'crash' in t:
            ctx.violation('interpreter died: %s: %s' % (describe(s, t), t['crash'][-400:]), s)
        elif t['err']:
            ctx.violation('construction raised: %s: %s' % (describe(s, t), t['err'][-400:]), s)
        else:
            good.append((s, t))
    rng = random.Random('neg-%s-%s-%d' % (ctx.pid, ctx.seed, nth))
    neg = []
    cand = [t for s, t in good if not s.get('screen') and (s['sample'] is None or len(s['sample']) < 30)]
    rng.shuffle(cand)
    for t in cand[:40]:
        c = corrupt(t, rng, ctx.pid)
        if c is not None:
            neg.append(c)
        if len(neg) >= controls:
            break
    chunk = 150
    alltr = [t for _, t in good] + neg
    verd = {}
    for a in range(0, len(alltr), chunk):
        part = common.trace_check(ctx, 'TraceFlow', alltr[a:a + chunk])
        verd.update({a + i: v for i, v in part.items()})
    clean = True
    for i, (s, t) in enumerate(good):
        n, bad = verd[i]
        state['steps'] += n
        ctx.traces += 1
        if bad:
            clean = state['clean'] = False
            msgs = [q.get('msg', '')[-300:] for q in t['q'] if q['err']][:1]
            ctx.violation('%s at grid index %s: %s %s' % (
                ', '.join(sorted({b[0] for b in bad})), sorted({int(b[1]) for b in bad})[:6], describe(s, t), ' '.join(msgs)), s)
        elif len(ctx.samples) < 3:
            ctx.samples.append(dict(trace=describe(s, t), checked=n, verdict='accepted'))
    for j, t in enumerate(neg):
        n, bad = verd[len(good) + j]
        state['controls'] += 1
        if bad:
            ctx.controls += 1
            if len(ctx.samples) < 5:
                ctx.samples.append(dict(negative_control=t['corrupted'], rejected_by=[list(b) for b in bad][:3]))
        elif clean:
            raise common.Machinery('negative control accepted: %s of %s' % (t['corrupted'], t['cfg']))
