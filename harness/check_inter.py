"""P24: schedules of Interleave.tla replayed on real constructions, judged by TraceSession.tla."""
import copy
import random

import common
import scen
from scen import scenario

ASK = ['reproducible', 'pointwise', 'failures', 'held']
MISTAKES = ['scratch:Isolated', 'queryscratch:Isolated', 'memo:Isolated', 'guard:Isolated', 'held:ArgumentHeld']
ASSUME = ['schedules of Interleave.tla: all of two constructions with three suspended calls each are enumerated, those of four constructions are drawn in simulation mode (seeded); a sample of them is replayed',
          'every construction has random numbers of its own, given by the harness; one thread runs at a time']


def items(ctx, cases, n):
    rng = random.Random('P24-%d' % ctx.seed)
    nested = [c for c in cases if c['nested']]
    other = [c for c in cases if not c['nested']]
    deep = [c for c in nested if sum(1 for a in c['sched'] if a[0] == 'start') > 2] or nested
    pick = [(c, False) for c in rng.sample(nested, min(len(nested), n // 3))] + [(c, False) for c in rng.sample(deep, min(len(deep), n // 6))]
    pick += [(c, True) for c in rng.sample(other, min(len(other), n - len(pick)))]
    out = []
    for j, (c, threads) in enumerate(pick):
        be = ['np', 'th'][j % 2]
        det = rng.random() < .6
        rw, bb = [(False, False), (False, True), (True, False), (True, True)][(j // 2) % 4]
        k = rng.choice([5, 12, 13, 14])
        dim = rng.choice([1, 2, 2, 3])
        N, M = rng.choice([5, 6]), rng.choice([3, 4])
        T = sorted({t for _, t in c['sched']})
        cfgs = []
        for t in T:      # same sizes, other drifts and states; sometimes the other class or other flags
            b, d, r, q = (be, det, rw, bb) if rng.random() < .7 else (rng.choice(['np', 'th']), rng.random() < .5, *rng.choice([(False, False), (True, False), (True, True)]))
            s = scenario(rng, b, d, r, q, k if rng.random() < .8 else 12, dim=dim, N=N if rng.random() < .8 else 7, M=M)
            s['fkind'] = 'poly'
            s['ytype'] = 'f8'
            cfgs.append(s)
        if rng.random() < .3:        # the same configuration with other random numbers
            cfgs = [cfgs[0]] * len(T)
        out.append(dict(sched=c['sched'], threads=threads, cfgs=cfgs, of={str(t): i for i, t in enumerate(T)}, exc=rng.getrandbits(8),
                        seeds={str(t): rng.getrandbits(20) for t in T}, frac={str(t): [rng.random() if rng.random() < .8 else rng.choice([0, 1]) for _ in range(6)] for t in T},
                        at=[rng.randrange(1, 30) for _ in range(3)], pseed=rng.getrandbits(30), ask=ASK))
        if len(set(map(id, cfgs))) == 1:
            out[-1]['of'] = {str(t): 0 for t in T}
    return out


def corrupt(tr, rng):
    t = copy.deepcopy(tr)
    L = t['log']
    b = [n for n, e in enumerate(L) if e['op'] == 'build' and not e['err'] and e['o'] >= 10]
    f = [n for n, e in enumerate(L) if e['op'] == 'fail']
    if not b:
        return None
    k = rng.choice(['flows', 'held', 'after'] + ['reached', 'later'] * bool(f) + ['object'])
    if k == 'flows':
        L[rng.choice(b)]['flows'] = 'other'
    elif k == 'after':
        L[rng.choice(b)]['after'] = 'other'
    elif k == 'held':
        L[rng.choice(b)]['held'] = False
    elif k == 'reached':
        L[rng.choice(f)]['reached'] = 'none'
    elif k == 'later':
        L[rng.choice(f)]['later'] = 2
    else:
        n = len(L) - 1
        if len(L) < 2 or not L[n - 1]['objs']:
            return None
        L[n]['objs'][0]['d'] = 'changed'
    t['corrupted'] = k
    return t


def run(ctx, only=None):
    n = 120 * (8 if ctx.deep else 1)
    sim = common.tlc_start(ctx, 'MCInterleave', 'SimInterleave', args=['-simulate', 'num=%d' % (4 * n), '-depth', '60', '-seed', str(500 + ctx.seed)], workers=1)
    mc = common.tlc_start(ctx, 'MCInterleave', 'MCInterleave', workers=2)
    three = common.tlc_start(ctx, 'MCInterleave', 'MCInterleave_deep' if ctx.deep else 'MCInterleave_three', workers=4)
    for m in MISTAKES:
        cfg, inv = m.split(':')
        common.model_refute(ctx, 'MCInterleave', 'MCInterleave_' + cfg, inv)
    cs = common.cases(common.model_finish(ctx, mc, 'MCInterleave'), 'CASE')
    text = common.model_finish_sim(ctx, sim, 'SimInterleave')
    cs += common.cases(text, 'CASE')
    common.model_finish(ctx, three, 'MCInterleave_deep' if ctx.deep else 'MCInterleave_three')
    ctx.extra['schedules_of_the_model'] = len(cs)
    its = only if only is not None else items(ctx, cs, n)
    trs = common.drive(ctx, 'driver_inter.py', its)
    ctx.extra['constructions'] = sum(1 for t in trs for e in t.get('log', ()) if e['op'] in ('build', 'fail'))
    ctx.extra['schedules_not_executable'] = sum(1 for t in trs if t.get('stuck'))

    def where(it, tr, bad):
        m = min([int(b[1]) for b in bad] or [1])
        e = tr['log'][m - 1]
        return 'schedule %s (%s), configurations %s; %s of task %d %s' % (
            ' '.join('%s%d' % tuple(a) for a in it['sched']), 'threads' if it['threads'] else 'nested',
            [(s['be'], s['det'], s['rw'], s['bb'], s['k']) for s in it['cfgs']], e['op'], e['o'] % 10, e['msg'][-300:])
    common.judge(ctx, 'TraceSession', its, trs, where, corrupt, controls=20 if ctx.deep else 8, chunk=400)
    return ASSUME
