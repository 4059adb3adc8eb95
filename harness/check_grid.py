"""P02: grids enumerated by Grid.tla, built by the real classes, judged by TraceGrid.tla."""
import copy
import random

import common
from enc import num, dec
from scen import scenario

ASSUME = ['start times between -4 and 124, spans of up to 0.28 (sampled up to 2), end times in steps of a tenth of the grid step and between them',
          'half-way between two grid points either is accepted']


def items(ctx, cases):
    rng = random.Random('P02-%s' % ctx.seed)
    out = []
    small = [c for c in cases if c['n'] <= 14]
    longer = [c for c in cases if c['n'] > 14]
    pick = rng.sample(small, len(small) if ctx.deep else 170) + rng.sample(longer, len(longer) if ctx.deep else 10)
    flags = [(d, r, b) for d in (True, False) for r in (False, True) for b in (False, True)]
    for c in pick:
        det, rw, bb = rng.choice(flags) if c['n'] <= 14 else (False, False, rng.random() < .5)
        if c['n'] > 14 and rng.random() < .3:
            det = True
        s = scenario(rng, rng.choice(['np', 'th']), det, rw, bb, c['n'], dim=rng.choice([1, 2, 3, 4, 6]), N=rng.choice([2, 3, 4, 5, 7]),
                     M=rng.choice([1, 2, 3, 5]))
        s.update(a1=c['t1'], a2=c['t2'], form=[rng.choice(['float', 'int', 'np', 'acc']), rng.choice(['float', 'int', 'np', 'acc']), rng.random() < .3])
        out.append(s)
    for _ in range(12 if ctx.deep else 3):      # long grids, and end times between the units of the model
        for be in ('np', 'th'):
            a1 = rng.randrange(-50000, 50000)
            n = rng.choice([500, 1000, 1501, 2001])
            s = scenario(rng, be, False, False, rng.random() < .5, n, dim=1, N=2, M=2)
            s.update(a1=a1, a2=a1 + 10 * (n - 1) + rng.choice([0, 0, 3, -3, 4.9, -4.9]), form=['float', 'float', rng.random() < .5])
            out.append(s)
    for _ in range(40 if ctx.deep else 16):
        n = rng.randint(2, 9)
        a1 = rng.uniform(-3e4, 3e4)
        s = scenario(rng, rng.choice(['np', 'th']), rng.random() < .5, False, False, n, dim=rng.choice([1, 2]), N=3, M=2)
        s.update(a1=a1, a2=a1 + 10 * (n - 1) + rng.uniform(-4.99, 4.99), form=['float', 'float', True])
        out.append(s)
    for s in out:       # bounded drifts and mild weights: only grid and shapes matter here
        zero = [0] * s['dim']
        for nm in ('f', 'ftrue'):
            s[nm] = [[dict(c=rng.uniform(-2, 2), e=list(zero), p=0)] for _ in range(s['dim'])]
        if rng.random() < .5:       # states in other number types: the storage is double precision all the same
            s['ytype'] = rng.choice(['f4', 'f4end', 'i8'] if s['be'] == 'np' else ['f4', 'f4end', 'i8', 'th4', 'thint'])
        s['U'] = [dict(c=rng.uniform(-50, 50), e=list(zero), p=0)]
    return out


def corrupt(tr, rng):
    if tr['err']:
        return None
    t = copy.deepcopy(tr)
    kind = rng.choice(['drop', 'add', 'shift', 'k', 'shape', 'dtype'])
    g = t['grid']
    if kind == 'drop':
        g.pop()
        t['k'] -= 1
        for f in t['flows']:
            f['shape'][2] -= 1
    elif kind == 'add':
        g.append(num(dec(g[-1]) + .001))
        t['k'] += 1
        for f in t['flows']:
            f['shape'][2] += 1
    elif kind == 'shift':
        i = rng.randrange(len(g))
        g[i] = num(dec(g[i]) + 1e-5)
    elif kind == 'k':
        t['k'] += 1
    elif kind == 'shape':
        f = rng.choice(t['flows'])
        f['shape'] = [f['shape'][1] + 1] + f['shape'][1:]
    else:
        rng.choice(t['flows'])['dtype'] = 'float32'
    if kind in ('drop', 'add') and abs(abs(dec(tr['grid'][-1]) - dec(tr['t2'])) - .0005) < 1e-7:
        return None
    t['corrupted'] = kind
    return t


def run(ctx, only=None):
    cs = common.cases(common.model_check(ctx, 'MCGrid'), 'CASE')
    ctx.extra['grids_of_the_model'] = len(cs)
    its = only if only is not None else items(ctx, cs)
    trs = common.drive(ctx, 'driver_grid.py', its)

    def where(it, tr, bad):
        return 't1=%s t2=%s backend=%s deterministic=%s reweight=%s bridge=%s dim=%d N=%d: %d grid points, k=%s, %s %s' % (
            dec(tr['t1']), dec(tr['t2']), it['be'], it['det'], it['rw'], it['bb'], it['dim'], it['N'], len(tr['grid']), tr['k'],
            [(f['name'], f['shape'], f['dtype']) for f in tr['flows']], tr['msg'][-300:])
    common.judge(ctx, 'TraceGrid', its, trs, where, corrupt, controls=30 if ctx.deep else 10, chunk=2000)
    return ASSUME
