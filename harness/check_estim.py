"""P14 and P15: sessions of Estim.tla on the real estimators, judged by TraceEstim.tla."""
import copy
import json
import random

import common
from enc import num, dec

ASSUME = ['problem sizes up to N=1100 samples and M=60 inducing points (most below 40 and 15) in up to 6 dimensions',
          'tolerances 1e-8 (numpy) and 1e-6 (pytorch) of the sum of the magnitudes of the summed terms',
          'only the Gaussian kernel (the periodic one is documented as not functional)']

SAME = ('float', 'int', 'npfloat', 'tensor0')      # forms of one length scale for all dimensions
WHOLE = ('intlist', 'intarray')


def problem(rng, equal, large=False):
    dim = rng.choice([1, 2, 2, 3, 3, 4, 6, rng.choice([6, 9, 12])])
    N = rng.choice([1, 2, 3, 5, 8, 13, 20, dim, 40])
    M = rng.choice([1, 2, 3, 5, 8, 12, dim, N if N < 15 else 4])
    if large:
        dim = rng.choice([1, 2, 3, 5])
        N, M = rng.choice([(300, 8), (700, 3), (130, 25), (50, 50), (30, 60), (257, 5), (1100, 2), (2100, 2), (9, 90), (20, 6), (20, 4)])
    off = rng.choice([0, 0, 0, 3, -50, 800])
    sc = rng.choice([1.0, 1.0, .1, 10.0])
    pt = lambda w: [off + sc * rng.gauss(0, w) for _ in range(dim)]
    X = [pt(1) for _ in range(N)]
    S = [pt(1.2) for _ in range(M)]
    if rng.random() < .2:        # inducing points among the samples, repeated samples
        S = [list(rng.choice(X)) if rng.random() < .5 else s for s in S]
        X = [list(rng.choice(X)) if rng.random() < .3 else x for x in X]
    if equal == 'ints':
        ell = [float(rng.choice([1, 2, 3])) for _ in range(dim)]
    elif equal:
        l = rng.choice([1, 2, 1]) if equal == 'int' else sc * rng.uniform(.4, 2.5)
        ell = [float(l)] * dim
    else:
        ell = [sc * rng.uniform(.4, 2.5) for _ in range(dim)]
    Q = [[pt(1.5) for _ in range(rng.choice([1, 1, dim, 4]))], [pt(4) for _ in range(rng.choice([1, M, min(N, 60), dim, 7]))]]
    if large and N * M < 500:      # many query points
        Q[1] = [pt(2) for _ in range(rng.choice([70, 150, 300, 700, 1500]))]
    C = rng.choice([0.001, 0.001, 0.05, 1.0, 0.0, 7.5])
    return dict(dim=dim, X=X, S=S, Q=Q, ell=ell, C=C, defaultC=C == 0.001 and rng.random() < .5, bare=rng.random() < .5)


def items(ctx, shapes, calls):
    rng = random.Random('%s-%s' % (ctx.pid, ctx.seed))
    want = dict(form=ctx.pid == 'P14', agree=ctx.pid == 'P15')
    out = []
    pool = []
    for t in range(150 if ctx.deep else 36):
        kind = rng.choice(['int', 'equal', 'vector', 'vector', 'ints'])
        large = t % 9 == 4
        pr = problem(rng, False if kind == 'vector' else kind, large)
        ses = []
        for _ in range(3 if large else 16 if ctx.deep else 10):
            def pick():
                # every call of the model comes up before any is repeated
                while True:
                    if not pool:
                        pool.extend(rng.sample(calls, len(calls)))
                    c = dict(pool.pop())
                    if kind in ('vector', 'ints') and c['form'] in SAME:
                        c['form'] = rng.choice(['list', 'tuple', 'array', 'view'])
                    if c['form'] == 'int' and kind != 'int':
                        c['form'] = 'float'
                    if c['form'] in WHOLE and kind not in ('int', 'ints'):
                        c['form'] = c['form'][3:]
                    elif kind == 'ints' and c['form'] in ('list', 'array') and rng.random() < .5:
                        c['form'] = 'int' + c['form']
                    if c['d'] > pr['dim']:
                        c['d'] = rng.randrange(1, pr['dim'] + 1)
                    elif c['d'] and rng.random() < .3:
                        c['d'] = rng.randrange(1, pr['dim'] + 1)
                    if want['form'] and c['impl'] == 'tor':
                        continue
                    return c
            ab = [pick(), pick()]
            shape = rng.choice(shapes)
            first = shape[0]['call']
            ses.append([dict(op=s['op'], h=s['h'], q=s['q'], call=ab[0] if s['call'] == first else ab[1]) for s in shape])
        # every implementation once in both forms at all query sets, another dimension each time
        ds = list(range(1, pr['dim'] + 1))
        d = rng.choice(ds)
        for im in ('sep', 'old', 'leg', 'all', 'tor'):
            if im == 'tor' and want['form']:
                continue
            cs = [c for c in calls if c['impl'] == im and (c['form'] in ('float', 'npfloat', 'tensor0') if kind == 'equal' else
                  c['form'] == 'int' if kind == 'int' else c['form'] not in SAME and (kind == 'ints' or c['form'] not in WHOLE))]
            c = dict(rng.choice(cs))
            c['d'] = d if im in ('sep', 'old', 'leg') else 0
            ses.append([dict(op='make', h=1, q=0, call=c)] + [dict(op='eval', h=1, q=q, call=c) for q in rng.sample([0, 1, 2], 3)])
            ses.append([dict(op='direct', h=0, q=0, call=c)])
        out.append(dict(problem=pr, sessions=ses, want=want))
    return out


def corrupt(tr, rng):
    t = copy.deepcopy(tr)
    good = [a for a in t['ans'] if not a['err'] and (t['want']['agree'] or a['impl'] != 'tor')]
    if t['want']['agree']:       # a question that is asked twice
        seen, twice = set(), []
        for a in good:
            ks = {(d, a['q']) for d in ([a['d']] if a['d'] else range(1, len(t['ell']) + 1))}
            if ks & seen:
                twice.append((a, sorted(ks & seen)[0][0]))
            seen |= ks
        if not twice:
            return None
        a, d = rng.choice(twice)
        r = 0 if a['d'] else d - 1
    else:
        if not good:
            return None
        a = rng.choice(good)
        r = rng.randrange(len(a['val']))
    v = a['val'][r]
    n = rng.randrange(len(v))
    big = max(abs(dec(x)) for x in v)
    if big < 1e-6:
        return None
    v[n] = num(dec(v[n]) + big * 1e-1)
    t['corrupted'] = '%s %s dimension %d query set %d' % (a['impl'], a['op'], a['d'], a['q'])
    return t


def describe(it):
    p = it['problem']
    return 'N=%d M=%d dim=%d C=%g l=%s' % (len(p['X']), len(p['S']), p['dim'], p['C'], ['%.3g' % v for v in p['ell']])


def run(ctx, only=None):
    text = common.model_check(ctx, 'MCEstim', args=())
    shapes, calls = common.cases(text, 'CASE'), common.cases(text, 'CALL')
    its = only if only is not None else items(ctx, shapes, calls)
    ctx.extra['sessions_of_the_model'] = len(shapes)
    ctx.extra['calls_of_the_model'] = len(calls)
    ctx.extra['sessions_replayed'] = sum(len(i['sessions']) for i in its)
    used = {json.dumps(s['call'], sort_keys=True) for i in its for ses in i['sessions'] for s in ses}
    ctx.extra['different_calls_replayed'] = len(used)
    trs = common.drive(ctx, 'driver_est.py', its)

    def where(it, tr, bad):
        ses = sorted({int(b[1]) for b in bad})
        msg = [a['msg'][-250:] for a in tr['ans'] if a['err']][:1]
        return '%s; session %s %s' % (describe(it), [(s['op'], s['call']['impl'], s['call']['form'], s['call']['box'], s['call']['d'], s['q'])
                                                     for s in it['sessions'][ses[0]]], ' '.join(msg))
    common.judge(ctx, 'TraceEstim', its, trs, where, corrupt, controls=24 if ctx.deep else 6)
    return ASSUME
