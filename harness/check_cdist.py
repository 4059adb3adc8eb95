"""P17: the parallel pairwise distances; Cdist.tla explores all schedules of the loop, TraceCdist.tla judges real calls."""
import copy
import random

import common
from enc import num, dec

ASSUME = ['double precision or integer point sets; distances to a relative error of 1e-11',
          'schedules of the real code: 1 to 8 threads and chunk sizes 0 (static) to 7, repeated calls; all interleavings only in the model']
# (layouts of r, y, output; dtype): one compilation each
SIGNATURES = [('CCC', 'float'), ('CCC', 'float'), ('FFF', 'float'), ('VVC', 'float'), ('VCV', 'float'), ('CFV', 'float'), ('CCC', 'int'), ('CCF', 'float')]


def items(ctx):
    rng = random.Random('P17-%s' % ctx.seed)
    out = []
    per = 60 if ctx.deep else 14
    sizes = [(1, 1, 1), (1, 6, 2), (7, 1, 3), (2, 2, 2), (3, 5, 4), (13, 8, 1), (40, 3, 2), (3, 40, 6), (33, 17, 3), (64, 64, 2), (5, 5, 40),
             (2, 3, 17), (100, 20, 5), (16, 16, 9), (257, 4, 2), (4, 129, 3)]
    big = [(300, 60, 2), (60, 300, 3), (150, 150, 1), (1500, 7, 2), (6, 2100, 1), (20, 25, 90), (4, 3, 300), (2, 3, 1100)]
    for k in range(per):
        for lay, dt in SIGNATURES:
            if rng.random() < .5:
                n, m, d = rng.choice(sizes)
            elif rng.random() < (.5 if ctx.deep else .15):
                n, m, d = rng.choice(big)
            else:
                n, m, d = rng.randint(1, 30), rng.randint(1, 30), rng.randint(1, 12)
            calls = []
            for _ in range(rng.randint(3, 8 if n * m < 3000 else 20)):
                calls.append(dict(threads=rng.choice([1, 2, 3, 4, 5, 7, 8, 8]), chunk=rng.choice([0, 0, 1, 2, 7]),
                                  fill=rng.choice(['nan', 'inf', 'huge', 'random', 'zero', 'ones'])))
            shift = rng.choice([0, 0, 0, 10., -1000.])
            out.append(dict(size=[n, m, d], layout=lay, dtype=dt, seed=rng.getrandbits(30), calls=calls,
                            dist=rng.choice(['euclidean', 'sqeuclidean']), equal=rng.random() < .3, same=lay[0] == lay[1] and rng.random() < .15,
                            default=rng.random() < .5, keyword=rng.random() < .5, scale=rng.choice([1., 1., 1e-3, 30., 1e5]), shift=shift))
    return out


def corrupt(tr, rng):
    if not tr['outs'] or any(c['err'] for c in tr['calls']):
        return None
    t = copy.deepcopy(tr)
    kind = rng.choice(['cell', 'cell', 'margin', 'inputs'])
    if kind == 'cell':
        o = rng.choice(t['outs'])
        i = rng.randrange(len(o))
        j = rng.randrange(len(o[0]))
        o[i][j] = num(dec(o[i][j]) * (1 + 1e-8) + 1e-9)
    else:
        rng.choice(t['calls'])[kind] = False
    t['corrupted'] = kind
    return t


def run(ctx, only=None):
    models = [common.tlc_start(ctx, 'MCCdist', workers=2)]
    its = only if only is not None else items(ctx)
    trs = common.drive(ctx, 'driver_cdist.py', its, env=dict(NUMBA_NUM_THREADS='8'))
    common.model_finish(ctx, models[0], 'MCCdist')
    common.model_refute(ctx, 'MCCdist', 'MCCdist_shared', 'Filled')
    common.model_refute(ctx, 'MCCdist', 'MCCdist_inplace', 'Filled')
    if ctx.deep:
        common.model_check(ctx, 'MCCdist', 'MCCdist_deep')

    def where(it, tr, bad):
        return '%s of %s points (%s, layouts %s): %d calls gave %d different outputs %s' % (
            it['dist'], 'x'.join(map(str, it['size'])), it['dtype'], it['layout'], len(tr['calls']), len(tr['outs']),
            ' '.join(c['msg'][-200:] for c in tr['calls'] if c['err'])[:200])
    common.judge(ctx, 'TraceCdist', its, trs, where, corrupt, controls=20 if ctx.deep else 8, chunk=2000)
    ctx.extra['calls_of_the_routine'] = sum(len(t.get('calls', ())) for t in trs)
    return ASSUME
