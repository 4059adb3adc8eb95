"""P16: sessions of Kernel.tla on real kernel objects, judged by TraceKernel.tla."""
import copy
import random

import common
from enc import num, dec

ASSUME = ['point sets up to 300 points (most below 8) in up to 6 dimensions, length scales 0.3 to 3, signal variances 0.1 to 9',
          'the gradient has the sign convention of the library, (x - y)/l^2 K(x, y)']


def items(ctx, sessions):
    rng = random.Random('P16-%s' % ctx.seed)
    out = []
    ses = sessions if ctx.deep else rng.sample(sessions, 450)
    for t, s in enumerate(ses):
        large = t % 60 == 11
        dim = rng.choice([1, 2, 2, 3, 4, 6])
        off = rng.choice([0, 0, 5, -300])
        sets = []
        n0 = rng.choice([1, 2, 3, 5])
        for q in range(2):      # equal sizes half of the time: stale matrices then have the right shape
            n = rng.choice([30, 70, 130] if q == 0 else [12, 30, 130, 300]) if large else n0 if rng.random() < .6 else rng.choice([1, 2, 4, 7])
            sets.append([[off + rng.gauss(0, 1) for _ in range(dim)] for _ in range(n)])
        if rng.random() < .2:
            sets[1][0] = list(sets[0][0])
        objs = []
        for q in range(2):
            form = rng.choice(['scalar', 'scalar', 'tensor0', 'array', 'list', 'tensor'])
            if form in ('scalar', 'tensor0'):
                ell = [rng.choice([1.0, rng.uniform(.3, 3)])] * dim
            else:
                ell = [rng.uniform(.3, 3) for _ in range(dim)]
            objs.append(dict(form=form, ell=ell, sv=rng.choice([1.0, rng.uniform(.1, 9)]), default=rng.random() < .5,
                             device=rng.choice([None, 'cpu'])))
        out.append(dict(session=s, sets=sets, objects=objs, box=[rng.choice(['array', 'tensor', 'view', 'grad']) for _ in range(2)],
                        omit=rng.random() < .5))
    return out


def corrupt(tr, rng):
    good = [q for q, a in enumerate(tr['log']) if not a['err']]
    if not good:
        return None
    t = copy.deepcopy(tr)
    a = t['log'][rng.choice(good)]
    i = rng.randrange(len(a['val']))
    j = rng.randrange(len(a['val'][i]))
    sv = dec(t['objects'][a['o'] - 1]['sv'])
    if a['op'] == 'value':
        a['val'][i][j] = num(dec(a['val'][i][j]) - 1e-6 * sv)
    else:
        d = rng.randrange(len(a['val'][i][j]))
        a['val'][i][j][d] = num(dec(a['val'][i][j][d]) + 1e-5 * sv + 1e-3 * abs(dec(a['val'][i][j][d])))
    t['corrupted'] = '%s[%d][%d]' % (a['op'], i, j)
    return t


def run(ctx, only=None):
    text = common.model_check(ctx, 'MCKernel')
    ses = common.cases(text, 'CASE')
    ctx.extra['sessions_of_the_model'] = len(ses)
    its = only if only is not None else items(ctx, ses)
    ctx.extra['sessions_replayed'] = len(its)
    trs = common.drive(ctx, 'driver_kern.py', its)

    def where(it, tr, bad):
        o = it['objects']
        return 'session %s; length scales %s, signal variances %s %s' % (
            [(a['op'], a['o'], a['x'], a['y']) for a in it['session']], [x['form'] for x in o], [round(x['sv'], 3) for x in o],
            ' '.join(a['msg'][-200:] for a in tr['log'] if a['err'])[:200])
    common.judge(ctx, 'TraceKernel', its, trs, where, corrupt, controls=24 if ctx.deep else 8, chunk=2000)
    return ASSUME
