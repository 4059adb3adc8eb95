"""Scenario sets of the properties that are decided by spec/TraceFlow.tla."""
import math
import random
from scen import scenario, q_control, q_cover, q_force, inner_outer, path_cost

BOTH = ('np', 'th')
FLAGS = [(rw, bb) for rw in (False, True) for bb in (False, True)]


def want(**k):
    w = dict(Z=False, T=False, B=False, pin=False, control=False, cover=False, full=False, calls=False, force=False)
    w.update(k)
    return w


def spread_cells(rng, k, flows, n):
    """first, second, last and random middle columns of the given flows"""
    out = set()
    for f in flows:
        for i in [1, 2, 3, k - 3, k - 2, k - 1, 5, 6] + [rng.randrange(1, k) for _ in range(n)]:
            if 0 < i < k and not (f == 'B' and i == k - 1):
                out.add((f, i))
    return sorted(out)


def shapes(rng):
    """dimension, particles and inducing points, with the unusual relations"""
    return rng.choice([
        dict(dim=1, N=5, M=3), dict(dim=1, N=3, M=6), dict(dim=2, N=2, M=2), dict(dim=2, N=6, M=4),
        dict(dim=2, N=5, M=5), dict(dim=2, N=4, M=1), dict(dim=3, N=3, M=3), dict(dim=3, N=7, M=4),
        dict(dim=4, N=4, M=6), dict(dim=4, N=6, M=3), dict(dim=5, N=6, M=4), dict(dim=2, N=11, M=7),
        dict(dim=3, N=8, M=2), dict(dim=6, N=5, M=3), dict(dim=2, N=3, M=9),
        dict(dim=9, N=6, M=3), dict(dim=12, N=5, M=4)])


def big(rng, be, det, rw, bb, flows, k=None, **kw):
    """more particles / longer grids, a sample of the columns"""
    k = k or rng.choice([40, 61])
    s = scenario(rng, be, det, rw, bb, k, dim=kw.pop('dim', rng.choice([2, 3])),
                 N=kw.pop('N', rng.choice([40, 60])), M=kw.pop('M', rng.choice([12, 20])), **kw)
    s['sample'] = [list(c) for c in spread_cells(rng, k, flows, 1)]
    return s


def screened(rng, be, det, rw, bb, k, cells=2, queries=0, **kw):
    """a long execution with many particles; all its columns (and queries) are looked
    at in doubles and the worst ones are compared"""
    s = scenario(rng, be, det, rw, bb, k, dim=kw.pop('dim', rng.choice([1, 2, 3])), **kw)
    s['sample'] = []
    s['screen'] = dict(cells=cells, queries=queries)
    return s


def long_k(rng, hi=600):
    return int(round(2 ** rng.uniform(5.5, math.log2(hi))))


def many(rng, hi=3000):
    """numbers of particles and inducing points"""
    n = int(round(2 ** rng.uniform(4.5, math.log2(hi))))
    return dict(N=n, M=rng.randrange(3, max(4, min(60, 20000 // n))))


def longest(rng, be, det, w, rw=False, bb=None, cells=0, queries=0):
    """a few particles on a grid of a thousand points and more"""
    return screened(rng, be, det, rw, rng.random() < .5 if bb is None else bb, rng.randrange(900, 2600 if be == 'np' else 1600),
                    cells=cells, queries=queries, want=w, N=rng.choice([5, 7, 9]), M=rng.choice([3, 4, 5]))


def again(rng, s):
    """some queries asked twice, at once or later"""
    for _ in range(2):
        q = rng.choice(s['queries'])
        s['queries'].insert(s['queries'].index(q) + 1 if rng.random() < .6 else len(s['queries']), dict(q))
    q = rng.choice(s['queries'])        # other points in the same array
    q['s'] |= 3
    s['queries'].insert(s['queries'].index(q) + 1, dict(q, s=rng.randrange(2 ** 31) | 3))


def p03(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for det in (True, False):
                for rw, bb in FLAGS:
                    for k in (2, 3, rng.choice([4, 5, 9, 14])):
                        s = scenario(rng, be, det, rw, bb, k, want=want(Z=True, T=True, B=True, pin=True), **shapes(rng))
                        s['sample'] = [['Z', 0], ['T', 0], ['B', 0], ['B', k - 1]]
                        out.append(s)
                        # the forward flow at the final time is a propagated column
                        if k > 2 and s['N'] < 9:
                            s['sample'].append(['Z', k - 1])
        out += [big(rng, be, det, False, False, 'Z', k=201, N=3, want=want(Z=True, B=True, pin=True),
                    ) for be in BOTH for det in (True, False)]
        for s in out[-4:]:
            s['sample'] = [['Z', 0], ['B', 0], ['B', 200], ['Z', 200]]
    return out


def p04(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for k in (2, 3, 4, 6, 9, 12, 16, 22):
                for bb in (False, True):
                    s = scenario(rng, be, True, False, bb, k, want=want(Z=True), **shapes(rng))
                    s['ret'] = rng.choice(['plain', 'plain', 'cached'])
                    out.append(s)
            out.append(big(rng, be, True, False, False, 'Z', want=want(Z=True)))
            out.append(big(rng, be, True, False, rng.random() < .5, 'Z', k=rng.choice([151, 222]), N=5, M=4, want=want(Z=True)))
            if deep:
                out.append(big(rng, be, True, False, False, 'Z', N=120, M=35, want=want(Z=True)))
    for be in BOTH * (12 if deep else 4):
        out.append(screened(rng, be, True, False, rng.random() < .5, long_k(rng), want=want(Z=True, pin=True), **many(rng)))
    for be in BOTH:
        out.append(longest(rng, be, True, want(Z=True, pin=True), cells=2))
    return out


def p05(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for rw, bb in FLAGS:
                for k in (2, 3, 4, 7, 13, 20):
                    s = scenario(rng, be, False, rw, bb, k, want=want(Z=True, B=True), **shapes(rng))
                    s['ret'] = rng.choice(['plain', 'plain', 'cached'])
                    out.append(s)
            out.append(big(rng, be, False, False, False, 'ZB', k=45, N=30, M=10, want=want(Z=True, B=True)))
            out.append(big(rng, be, False, False, True, 'ZB', k=180, N=4, M=3, want=want(Z=True, B=True)))
    for be in BOTH * (20 if deep else 4):
        for bb in (False, True):
            out.append(screened(rng, be, False, False, bb, long_k(rng), want=want(Z=True, B=True, pin=True), **many(rng)))
        out.append(screened(rng, be, False, True, rng.random() < .5, long_k(rng, 120), want=want(Z=True, B=True, pin=True), **many(rng, 90)))
    for be in BOTH:
        out.append(longest(rng, be, False, want(Z=True, B=True, pin=True), cells=2))
    return out


def p06(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for rw, bb in FLAGS:
                for k in (3, 4, 5, 8, 13, 19):
                    s = scenario(rng, be, True, rw, bb, k, want=want(B=True), **shapes(rng))
                    s['ret'] = rng.choice(['plain', 'plain', 'cached'])
                    out.append(s)
            out.append(big(rng, be, True, False, False, 'B', want=want(B=True)))
            out.append(big(rng, be, True, False, True, 'B', k=170, N=5, M=4, want=want(B=True)))
            if deep:
                out.append(big(rng, be, True, False, False, 'B', N=100, M=30, want=want(B=True)))
    for be in BOTH * (20 if deep else 4):
        for bb in (False, True):
            out.append(screened(rng, be, True, False, bb, long_k(rng), want=want(B=True, pin=True), **many(rng)))
        out.append(screened(rng, be, True, True, rng.random() < .5, long_k(rng, 120), want=want(B=True, pin=True), **many(rng, 90)))
    for be in BOTH:
        out.append(longest(rng, be, True, want(B=True, pin=True), cells=2))
    return out


def p07(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for det in (True, False):
                for bb in (False, True):
                    for kind in ('gen', 'strong', 'flat', 'timeonly', 'offset', 'pos'):
                        k = rng.choice([2, 3, 4, 5, 7, 9, 14])
                        s = scenario(rng, be, det, True, bb, k, want=want(Z=True), **shapes(rng))
                        s['U'] = path_cost(rng, s, kind)
                        s['ret'] = rng.choice(['plain', 'plain', 'cached'])
                        out.append(s)
                s = big(rng, be, det, True, False, 'Z', k=33, N=24, M=8, want=want(Z=True))
                out.append(s)
    for be in BOTH:
        for det in (True, False) if deep else (rng.random() < .5,):
            s = scenario(rng, be, det, True, rng.random() < .5, 3, dim=rng.choice([2, 3]), N=rng.choice([200, 260]), M=3, want=want(Z=True))
            s['U'] = path_cost(rng, s, rng.choice(['gen', 'offset']))
            s['sample'] = [['Z', 1]]
            out.append(s)
    for be in BOTH * (20 if deep else 4):
        for det in (True, False):
            s = screened(rng, be, det, True, rng.random() < .5, long_k(rng, 150), want=want(Z=True, pin=True), **many(rng, 110))
            s['U'] = path_cost(rng, s, rng.choice(['gen', 'strong', 'offset']))
            out.append(s)
    for be in BOTH:
        out.append(longest(rng, be, rng.random() < .5, want(Z=True, pin=True), rw=True, cells=2))
    return out


def p09(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for det in (True, False):
                for k in (2, 3, 4, 7, 12, 13, 17):
                    s = scenario(rng, be, det, True, True, k,
                                 want=want(T=True, B=True, pin=True, control=True), **shapes(rng))
                    s['ret'] = rng.choice(['plain', 'plain', 'cached'])
                    e, i = inner_outer(k)
                    s['queries'] = [q_control(rng, s, x) for x in rng.sample(e, min(2, len(e))) + rng.sample(i, min(2, len(i)))]
                    if k > 9:
                        s['sample'] = ([['T', j] for j in range(k)] + [['B', j] for j in rng.sample(range(1, k - 1), 2)])
                    out.append(s)
                out.append(big(rng, be, det, True, True, 'T', k=30, N=20, M=8, want=want(T=True)))
    for be in BOTH * (20 if deep else 4):
        for det in (True, False):
            s = screened(rng, be, det, True, True, long_k(rng, 150), queries=2, want=want(T=True, B=True, pin=True, control=True), **many(rng, 90))
            s['queries'] = [q_control(rng, s, i, K=3) for i in range(1, s['k'] - 1)]
            out.append(s)
    for be in BOTH:
        out.append(longest(rng, be, rng.random() < .5, want(T=True, B=True, pin=True), rw=True, bb=True, cells=2))
    return out


def p10(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for det in (True, False):
                for rw, bb in FLAGS:
                    for k in (12, rng.choice([13, 14, 15]), rng.choice([16, 20, 24])):
                        s = scenario(rng, be, det, rw, bb, k, want=want(control=True), sample=[], **shapes(rng))
                        e, i = inner_outer(k)
                        ii = sorted({i[0], i[-1], rng.choice(i)})
                        s['queries'] = [q_control(rng, s, x) for x in rng.sample(ii, len(ii))]
                        s['queries'].append(q_control(rng, s, rng.choice(ii), K=s['dim'], far=True))
                        s['queries'].append(q_control(rng, s, rng.choice(ii), K=1, far=False))
                        again(rng, s)
                        out.append(s)
            s = big(rng, be, True, False, False, '', k=40, N=50, M=15, want=want(control=True))
            s['sample'] = []
            s['queries'] = [q_control(rng, s, x, K=3) for x in (6, 20, 34)]
            out.append(s)
            # large batches
            s = scenario(rng, be, rng.random() < .5, rng.random() < .3, rng.random() < .5, rng.choice([12, 15, 18]),
                         want=want(control=True), sample=[], dim=rng.choice([1, 2, 3]), N=rng.choice([5, 9]), M=rng.choice([3, 5]))
            s['queries'] = [q_control(rng, s, rng.choice(inner_outer(s['k'])[1]), K=K) for K in (rng.randrange(33, 100), rng.randrange(100, 300))]
            out.append(s)
    for be in BOTH * (20 if deep else 4):
        for det in (True, False):
            for rw in (False, True):
                s = screened(rng, be, det, rw, rng.random() < .5, long_k(rng, 120 if rw else 600), cells=0, queries=3,
                             want=want(control=True), **many(rng, 90 if rw else 3000))
                s['queries'] = [q_control(rng, s, i, K=rng.choice([1, 2, 4])) for i in range(6, s['k'] - 5)]
                rng.shuffle(s['queries'])
                out.append(s)
    for be in BOTH:
        for det in (True, False):
            s = longest(rng, be, det, want(control=True), rw=rng.random() < .5, queries=4)
            s['queries'] = [q_control(rng, s, i, K=2) for i in (6, 7, 8, 9, s['k'] - 6, s['k'] - 7, s['k'] - 8) + tuple(rng.sample(range(10, s['k'] - 9), 60))]
            out.append(s)
    return out


def p11(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for det in (True, False):
                for rw, bb in FLAGS:
                    for k in (3, 4, 6, 8, 11, 12, rng.choice([13, 17, 25, 60])):
                        if rw and k > 30:
                            k = 18
                        s = scenario(rng, be, det, rw, bb, k, want=want(control=True), sample=[], **shapes(rng))
                        e, i = inner_outer(k)
                        s['queries'] = [q_control(rng, s, x) for x in e]
                        rng.shuffle(s['queries'])
                        s['queries'] += [q_control(rng, s, rng.choice(e), K=K) for K in (1, s['dim'], 40)]
                        out.append(s)
    for be in BOTH * (20 if deep else 4):
        for det in (True, False):
            for rw in (False, True):
                s = screened(rng, be, det, rw, rng.random() < .5, long_k(rng, 120 if rw else 600), cells=0, queries=14,
                             want=want(control=True), **many(rng, 90 if rw else 3000))
                s['queries'] = [q_control(rng, s, i, K=rng.choice([1, 5, 40, 200]))
                                for i in range(1, s['k'] - 1) if i <= 5 or i >= s['k'] - 5 for _ in range(2)]
                rng.shuffle(s['queries'])
                out.append(s)
    for be in BOTH:
        for det in (True, False):
            s = longest(rng, be, det, want(control=True), rw=rng.random() < .5, queries=10)
            s['queries'] = [q_control(rng, s, i, K=rng.choice([1, 3])) for i in range(1, s['k'] - 1) if i <= 5 or i >= s['k'] - 5]
            out.append(s)
    return out


def p13(rng, deep):
    out = []
    kinds = ['in', 'zonly', 'bonly', 'out', 'edge_lo', 'edge_hi', 'just_out', 'onedim', 'y1', 'rand']
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for det in (True, False):
                for rw, bb in FLAGS:
                    for k in (2, 3, rng.choice([5, 8]), rng.choice([13, 17])):
                        s = scenario(rng, be, det, rw, bb, k, want=want(cover=True), sample=[], **shapes(rng))
                        # keep coordinates away from zero: 24 decimals then separate all doubles
                        s['queries'] = [q_cover(rng, s, rng.randrange(k), kd) for kd in kinds for _ in range(2)]
                        s['queries'] += [q_cover(rng, s, 0, 'y1'), q_cover(rng, s, k - 1, 'bonly'), q_cover(rng, s, 0, 'edge_lo')]
                        rng.shuffle(s['queries'])
                        out.append(s)
    for be in BOTH * (20 if deep else 4):
        for det in (True, False):
            for rw in (False, True):
                s = screened(rng, be, det, rw, rng.random() < .5, long_k(rng, 120 if rw else 600), cells=0, queries=12,
                             want=want(cover=True), **many(rng, 90 if rw else 3000))
                s['queries'] = [q_cover(rng, s, i, kd) for i in range(s['k']) for kd in rng.sample(kinds, 3)]
                rng.shuffle(s['queries'])
                out.append(s)
    for be in BOTH:
        s = longest(rng, be, rng.random() < .5, want(cover=True), rw=rng.random() < .5, queries=12)
        s['queries'] = [q_cover(rng, s, i, rng.choice(kinds)) for i in range(s['k'])]
        out.append(s)
    return out


def p20(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for det in (True, False):
                for rw, bb in FLAGS:
                    for k in (2, 3, 4, rng.choice([5, 6, 7]), rng.choice([9, 12, 15])):
                        s = scenario(rng, be, det, rw, bb, k, want=want(calls=True), **shapes(rng))
                        s['ret'] = rng.choice(['plain', 'plain', 'cached'])
                        s['sample'] = []
                        out.append(s)
            for det in (True, False):
                s = scenario(rng, be, det, rng.random() < .5, rng.random() < .5, rng.choice([60, 101]), N=9, M=4, dim=2, want=want(calls=True))
                s['sample'] = []
                out.append(s)
                out.append(scenario(rng, be, det, False, rng.random() < .5, rng.choice([151, 301]), N=4, M=3, dim=1, want=want(calls=True), sample=[]))
                for rw, bb in FLAGS:        # larger batches
                    N = rng.choice([25, 45, 70]) if rw else rng.choice([45, 70, 110, 260])
                    out.append(scenario(rng, be, det, rw, bb, rng.choice([3, 4, 5]), N=N, M=rng.choice([2, 4]), dim=rng.choice([1, 2, 3]),
                                        want=want(calls=True), sample=[]))
    return out


def p21(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for det in (True, False):
                for rw, bb in FLAGS:
                    for k in (2, 3, 4, 5, rng.choice([7, 11, 12, 13]), rng.choice([16, 25])):
                        out.append(scenario(rng, be, det, rw, bb, k, want=want(full=True), sample=[], **shapes(rng)))
                    out.append(scenario(rng, be, det, rw, bb, rng.choice([3, 6]), want=want(full=True), sample=[],
                                        dim=rng.choice([2, 8, 12]), N=rng.choice([60, 150]), M=rng.choice([10, 40])))
            out.append(scenario(rng, be, True, False, False, rng.choice([150, 300]), want=want(full=True), sample=[], dim=2, N=10, M=6))
            out.append(scenario(rng, be, False, True, True, 40, want=want(full=True), sample=[], dim=2, N=30, M=10))
            if deep:
                out.append(scenario(rng, be, True, False, False, 20, want=want(full=True), sample=[], dim=3, N=800, M=80))
                out.append(scenario(rng, be, False, False, False, 1001, want=want(full=True), sample=[], dim=1, N=4, M=3))
    for s in out:       # N >= 2 distinct particles
        if s['N'] < 2:
            s['N'] = 2
    return out


def p25(rng, deep):
    out = []
    for _ in range(30 if deep else 5):
        for be in BOTH:
            for det in (True, False):
                for rw, bb in FLAGS:
                    s = scenario(rng, be, det, rw, bb, rng.choice([3, 4, 6, 13]), want=want(force=True, control=True, cover=True), sample=[], **shapes(rng))
                    e, i = inner_outer(s['k'])
                    s['queries'] = [q_force(rng, s, rng.randrange(1, s['k'])) for _ in range(4)]
                    if rw and bb:
                        s['queries'] += [q_force(rng, s, rng.randrange(1, s['k']), fn=fn) for fn in ('f', 'ftrue')]
                    s['queries'] += [q_control(rng, s, rng.choice(e + i)), q_cover(rng, s, rng.choice(e + i))]
                    rng.shuffle(s['queries'])
                    again(rng, s)
                    fs = [q for q in s['queries'] if q['op'] == 'force']
                    for a, b in zip(fs, fs[1:]):     # as the stages of an integrator: another batch at the same time
                        if rng.random() < .6:
                            b.update(t=a['t'])
                        if rng.random() < .5:
                            b.update(fn=a['fn'], K=a['K'], kind='gauss' if b['kind'] == 'own' else b['kind'])
                        if rng.random() < .3:        # in the same array
                            a['s'] |= 3
                            b['s'] |= 3
                    out.append(s)
            s = scenario(rng, be, rng.random() < .5, True, True, rng.choice([3, 5]), want=want(force=True), sample=[],
                         dim=rng.choice([1, 2, 3]), N=rng.choice([6, 9]), M=rng.choice([3, 5]))
            s['queries'] = [q_force(rng, s, 2, fn=fn, K=rng.randrange(33, 400), kind=rng.choice(['gauss', 'unif', 'equal'])) for fn in ('f', 'ftrue')]
            out.append(s)
            s = scenario(rng, be, rng.random() < .5, False, False, 3, want=want(force=True), sample=[],
                         dim=2, N=6, M=rng.choice([20, 45]))
            s['queries'] = [q_force(rng, s, 2, fn='f', K=rng.randrange(10, 100), kind=rng.choice(['gauss', 'unif', 'equal'])) for _ in range(2)]
            out.append(s)
    return out


SETS = dict(P25=p25, P20=p20, P21=p21, P03=p03, P04=p04, P05=p05, P06=p06, P07=p07, P09=p09, P10=p10, P11=p11, P13=p13)


def shards(s):
    """the same execution recorded several times for different columns, so that
    heavy executions are compared in parallel"""
    cells = s['sample']
    if s['want']['full'] or s['want']['calls']:
        return [s]
    if cells is None:
        cells = [[f, i] for f in 'ZTB' if s['want'][f] for i in range(s['k'])]
    per = s['N'] * s['M'] * 2 + s['M'] ** 2 // 2 + 3 * s['N'] * s['N'] * s['rw']
    n = max(1, 15000 // per)
    if len(cells) <= n:
        return [s]
    out = [dict(s, sample=cells[a:a + n], queries=s['queries'] if a == 0 else []) for a in range(0, len(cells), n)]
    for o in out[1:]:
        o['want'] = dict(s['want'], control=False, cover=False)
    return out


def scenarios(pid, seed, deep):
    rng = random.Random('%s-%s' % (pid, seed))
    return [o for s in SETS[pid](rng, deep) for o in shards(s)]
