"""P08: the reweighting function is an optimal transport plan, judged by TraceMap.tla."""
import copy
import random

import common
from enc import num, dec

ASSUME = ['weights are non-negative and sum to one up to rounding; distances between 1e-4 and 1e4',
          'optimality up to 1e-9 of the largest distance, certified by dual potentials',
          'certificate exhaustively compared with brute force on small integer instances (MCTransport)']


def samples(rng, n, dim, kind=None):
    kind = kind or rng.choice(['gauss', 'gauss', 'dup', 'line', 'cluster', 'far', 'lattice', 'offset', 'small'])
    X = [[rng.gauss(0, 1) for _ in range(dim)] for _ in range(n)]
    if kind == 'dup':
        X = [list(rng.choice(X)) for _ in range(n)]
    elif kind == 'line':
        d = [rng.gauss(0, 1) for _ in range(dim)]
        X = [[c * x[0] for c in d] for x in X]
    elif kind == 'cluster':
        cs = [[rng.gauss(0, 20) for _ in range(dim)] for _ in range(2)]
        X = [[a * .01 + b for a, b in zip(x, rng.choice(cs))] for x in X]
    elif kind == 'far':
        X = [[1000 * c for c in x] for x in X]
    elif kind == 'lattice':
        X = [[float(rng.randrange(3)) for _ in range(dim)] for _ in range(n)]
    elif kind == 'offset':
        X = [[c + 500 for c in x] for x in X]
    elif kind == 'small':
        X = [[c * .001 for c in x] for x in X]
    return kind, X


def weights(rng, n, kind=None):
    kind = kind or rng.choice(['uniform', 'gen', 'gen', 'sparse', 'zeros', 'one', 'tiny', 'near', 'dyadic'])
    w = [rng.random() + .05 for _ in range(n)]
    if kind == 'uniform':
        return kind, [1.0 / n] * n
    if kind == 'sparse':
        w = [rng.random() ** 12 + 1e-12 for _ in range(n)]
    elif kind == 'zeros':
        w = [a if rng.random() < .5 else 0.0 for a in w]
        w[rng.randrange(n)] = 1.0
    elif kind == 'one':
        w = [0.0] * n
        w[rng.randrange(n)] = 1.0
    elif kind == 'tiny':
        w = [10.0 ** rng.uniform(-30, 0) for _ in range(n)]
        w[rng.randrange(n)] = 1.0
    elif kind == 'near':
        w = [1 + 1e-7 * rng.gauss(0, 1) for _ in range(n)]
    elif kind == 'dyadic':
        w = [float(rng.choice([1, 2, 4])) for _ in range(n)]
    s = sum(w)
    return kind, [a / s for a in w]


def items(ctx):
    rng = random.Random('P08-%s' % ctx.seed)
    out = []
    for t in range(700 if ctx.deep else 160):
        n = rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 10, 15, 20])
        dim, kx, kw = rng.choice([1, 1, 2, 2, 3, 5, 9]), None, None
        if t % 14 == 0:       # large ones in general position
            n = (60, 105, 150, 260, 34, 205)[t // 14 % 6]
            dim, kx, kw = rng.choice([2, 3, 5]), rng.choice(['gauss', 'far', 'offset', 'small', 'cluster']), rng.choice(['gen', 'sparse', 'tiny', 'zeros'])
        elif t % 14 == 7:
            n = rng.choice([30, 40, 52, 66, 90])
        kx, X = samples(rng, n, dim, kx)
        kw, w = weights(rng, n, kw)
        distinct = len({tuple(x) for x in X}) == n
        out.append(dict(X=X, w=w, uniform=kw == 'uniform' and distinct, form=rng.choice('cftv'),
                        wform=rng.choice(['flat', 'col', 'view']), calls=rng.choice([1, 1, 2]), name='%s/%s n=%d' % (kx, kw, n)))
    return out


def corrupt(tr, rng):
    if tr['err'] or len(tr['X']) < 2:
        return None
    t = copy.deepcopy(tr)
    n = len(t['X'])
    i, j = rng.randrange(n), rng.randrange(n)
    kind = rng.choice(['entry', 'swap'])
    if kind == 'swap':        # columns exchanged: still a plan, no longer an optimal one
        a, b = rng.sample(range(n), 2)
        dist = sum((dec(x) - dec(y)) ** 2 for x, y in zip(t['X'][a], t['X'][b])) ** .5
        if dist < 1e-3 or dec(t['T'][a][a]) < .3 or dec(t['T'][b][b]) < .3:
            return None
        for r in t['T']:
            r[a], r[b] = r[b], r[a]
    else:
        t['T'][i][j] = num(dec(t['T'][i][j]) + 1e-5)
    t['corrupted'] = '%s of the matrix' % kind
    return t


def run(ctx, only=None):
    common.model_check(ctx, 'MCTransport', 'MCTransport_deep' if ctx.deep else None)
    its = only if only is not None else items(ctx)
    trs = common.drive(ctx, 'driver_map.py', its)
    common.judge(ctx, 'TraceMap', its, trs, lambda it, tr, bad: '%s, weights %s %s' % (it['name'], it['wform'], tr.get('msg', '')[-200:]),
                 corrupt, controls=24 if ctx.deep else 8)
    return ASSUME
