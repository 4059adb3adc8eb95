"""Scenarios: configurations and inputs for the objects that are driven."""
import random

DT = 0.001


def monos(rng, dim, scale, yscale, t1, lin=True, quad=True):
    """a polynomial of random shape; every coefficient generic"""
    ts = 1.0 / (1.0 + abs(t1))
    z = [0] * dim
    out = [dict(c=rng.uniform(-1, 1) * scale, e=list(z), p=0),
           dict(c=rng.choice([-1, 1]) * rng.uniform(2, 6) * scale * ts, e=list(z), p=1)]
    if lin:
        for d in range(dim):
            e = list(z)
            e[d] = 1
            out.append(dict(c=rng.uniform(-1.5, 1.5) * scale / yscale, e=e, p=0))
    if quad:
        e = list(z)
        e[rng.randrange(dim)] += 1
        e[rng.randrange(dim)] += 1
        out.append(dict(c=rng.uniform(-.5, .5) * scale / yscale ** 2, e=e, p=0))
        e = list(z)
        e[rng.randrange(dim)] = 1
        out.append(dict(c=rng.uniform(-2, 2) * scale * ts / yscale, e=e, p=1))
    return out


def scenario(rng, be, det, rw, bb, k, dim=None, N=None, M=None, **over):
    dim = dim if dim is not None else rng.choice([1, 2, 2, 3])
    N = N if N is not None else rng.choice([4, 5, 6, 7])
    M = M if M is not None else rng.choice([2, 3, 4, 5])
    if rw:         # few particles collapse onto each other when they are resampled
        N = max(N, dim + 3, 5)
    t1 = rng.choice([0.0, 0.0, 0, rng.uniform(-1, 1), 2.5, -3.25, 40.0])
    ykind = rng.choice(['gen', 'gen', 'gen', 'zero', 'int', 'big', 'tied', rng.choice(['gen', 'huge'])])
    if ykind in ('big', 'huge'):
        r = rng.choice([2e3, 3e4, 1e6]) if ykind == 'huge' and not (rw and be == 'th') else 200
        y1 = [rng.uniform(-r, r) for _ in range(dim)]
    elif ykind == 'int':
        y1 = [float(rng.randrange(-3, 4)) for _ in range(dim)]
    elif ykind == 'zero':
        y1 = [0.0] * dim
    elif ykind == 'tied':
        y1 = [rng.uniform(-2, 2)] * dim
    else:
        y1 = [rng.uniform(-2, 2) for _ in range(dim)]
    ys = 1 + max(abs(y) for y in y1)
    gform = rng.choice(['float', 'float', 'int', 'col', 'col', 'col'])
    if gform == 'float':
        g = [rng.uniform(.3, 1.5)] * dim
    elif gform == 'int':
        g = [float(rng.choice([1, 2]))] * dim
    else:
        g = [rng.uniform(.3, 1.5) for _ in range(dim)]
        if ykind not in ('big', 'huge') and rng.random() < .5:      # dimensions of very different widths
            g = [x * rng.choice([1.0, 1.0, 1e-1, 1e-2, 1e-3]) for x in g]
    far = rng.random() < .15
    r = (k * DT) ** .5
    if ykind == 'int':
        y2 = [y + rng.choice([0.0, 0.0, 1.0]) for y in y1]
    else:
        y2 = [y + gd * r * rng.uniform(-1, 1) * (6 if far else 1) for y, gd in zip(y1, g)]
    s = dict(be=be, det=det, rw=rw, bb=bb, k=k, t1=t1, t2=t1 + (k - 1) * DT, dim=dim, N=N, M=M,
             y1=y1, y2=y2, gform=gform, g=g,
             ytype=('i8' if ykind == 'int' and rng.random() < .5 else rng.choice(['f8', 'f8', 'tensor', 'view'])),
             f=[monos(rng, dim, rng.uniform(.5, 3), ys, t1, quad=k <= 100) for _ in range(dim)],
             ftrue=[monos(rng, dim, rng.uniform(.5, 3), ys, t1, quad=k <= 100) for _ in range(dim)],
             seed=rng.randrange(2 ** 31), queries=[], sample=None, ret='plain',
             want=dict(Z=False, T=False, B=False, pin=False, control=False, cover=False, full=False, calls=False, force=False))
    s['U'] = path_cost(rng, s, rng.choice(['gen', 'gen', 'gen', 'strong', 'flat', 'timeonly', 'offset', 'pos']))
    s.update(over)
    if be == 'np' and s['ytype'] == 'tensor':
        s['ytype'] = 'f8'
    return s


def path_cost(rng, s, kind):
    """U scaled so that U dt varies by about one over the cloud of particles"""
    dim = s['dim']
    z = [0] * dim
    ts = 1.0 / (1.0 + abs(s['t1']))
    if kind in ('flat', 'timeonly'):
        out = [dict(c=rng.uniform(-500, 500), e=list(z), p=0)]
        if kind == 'timeonly':
            out.append(dict(c=rng.uniform(-500, 500) * ts, e=list(z), p=1))
        return out
    amp = {'gen': 800, 'strong': 2500, 'offset': 800, 'pos': 800}[kind] * min(1.0, 4.0 / s['k']) / dim ** .5
    out = []
    c0 = 0.0
    for d in range(dim):
        width = max((s['k'] * DT) ** .5, 8 * s['k'] * DT / s['g'][d])     # noise or drift
        e = list(z)
        e[d] = 1
        a = rng.choice([-1, 1]) * rng.uniform(.3, 1) * amp / width / s['g'][d]
        out.append(dict(c=a, e=e, p=0))
        c0 -= a * s['y1'][d]
        e = list(z)
        e[d] = 1
        b = rng.uniform(-1, 1) * amp / width / s['g'][d] * ts
        out.append(dict(c=b, e=e, p=1))
        out.append(dict(c=-b * s['y1'][d], e=list(z), p=1))
    if kind == 'offset':
        c0 += rng.choice([-1, 1]) * 3.0e4
    if kind == 'pos':
        c0 += 2.0e3
    out.append(dict(c=c0, e=list(z), p=0))
    return out


def inner_outer(k):
    edge = [i for i in range(1, k - 1) if i <= 5 or i >= k - 5]
    inner = [i for i in range(1, k - 1) if i not in edge]
    return edge, inner


def q_control(rng, s, i, K=None, far=None):
    if K is None:
        K = rng.choice([1, 1, 2, 3, s['dim'], s['N'], s['M']])
    return dict(op='control', i=i, K=K, far=rng.random() < .3 if far is None else far, s=rng.randrange(2 ** 31))


def q_force(rng, s, i, fn=None, K=None, kind=None):
    fn = fn or ('ftrue' if s['rw'] and s['bb'] and rng.random() < .5 else 'f')
    kind = kind or rng.choice(['own', 'gauss', 'gauss', 'unif', 'equal'])
    if K is None:
        K = rng.choice([2, 3, 5, s['N'], s['N'] + 3, s['dim'], 20])
    t = rng.choice([s['t1'] + i * DT, s['t1'] + rng.uniform(-1, 2) * s['k'] * DT, rng.uniform(-3, 3)])
    return dict(op='force', i=i, fn=fn, K=max(2, K), kind=kind, t=t, s=rng.randrange(2 ** 31))


def q_cover(rng, s, i, kind=None):
    return dict(op='cover', i=i, kind=kind or rng.choice(
        ['in', 'in', 'zonly', 'bonly', 'out', 'edge_lo', 'edge_hi', 'just_out', 'onedim', 'y1', 'rand']),
        s=rng.randrange(2 ** 31))
