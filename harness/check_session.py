"""P12, P18, P19, P22, P23: histories of Session.tla replayed on real controllers, judged by TraceSession.tla."""
import copy
import random

import common
import purecalls_names
import scen
from enc import num, dec
from scen import scenario

MISTAKES = dict(P12=['batch:Functional', 'writes:FlowsStable', 'stale:Functional'],
                P18=['aliasy:FlowsStable', 'aliasanswer:NoSharing', 'writesarg:ArgumentsKept'],
                P19=['entropy:Reproducible', 'forceflow:Functional', 'variant:Reproducible'],
               P22=['half:FlowsStable', 'swallow:FailuresSurface', 'poison:Reproducible'],
               P23=['leak:SettingsKept', 'settings:SettingsKept', 'sensitive:Reproducible'])
ASK = dict(P12=['pointwise', 'arguments'], P18=['arguments', 'sharing', 'reproducible'], P19=['reproducible', 'options'],
           P22=['failures', 'reproducible', 'pointwise'], P23=['settings', 'reproducible'])
ASSUME = ['histories of Session.tla up to the length in the models, drawn by TLC in simulation mode (seeded); exhaustive check of the specification up to 4 operations (5 in the thorough tier)',
          'P12 and P18 with harness-given random numbers, P19, P22 and P23 with the real generators of numpy, torch and random']


def conf(rng, pid, be=None, fkind='poly'):
    be = be or rng.choice(['np', 'th'])
    det = rng.random() < .6
    rw, bb = rng.choice([(False, False), (False, True), (True, False), (True, True)])
    k = rng.choice([13, 14, 16]) if pid == 'P12' else rng.choice([12, 12, 13])
    dim = rng.choice([1, 2, 2, 3])
    s = scenario(rng, be, det, rw, bb, k, dim=dim, N=rng.choice([5, 6, 7]), M=rng.choice([3, 4]))
    if s['ytype'] == 'tensor':
        s['ytype'] = 'f8'
    if pid == 'P12' and k >= 12 and s['y1'] == s['y2']:
        s['y2'] = [y + .05 for y in s['y2']]
    if pid == 'P19':
        s['N'] = max(s['N'], rng.choice([1, 1, 12, 30, 64, 130]))
        if not rw and rng.random() < .25:
            s['k'] = rng.choice([40, 110])
            s['t2'] = s['t1'] + (s['k'] - 1) * .001
        if not rw and rng.random() < .3:       # a target out of reach
            s['y2'] = [v + rng.choice([-1, 1]) * rng.choice([2, 30]) for v in s['y1']]
    s['fkind'] = fkind
    if pid == 'P18' and rng.random() < .4:      # states of unusual size
        y = rng.choice([1e-12, 1e3] if s['rw'] else [1e-12, 1e3, 1e5, 1e7])
        s['y1'] = [rng.uniform(-y, y) for _ in s['y1']]
        s['y2'] = [v + rng.choice([0, y * 1e-3, s['g'][d] * .1]) for d, v in enumerate(s['y1'])]
        for nm in ('f', 'ftrue'):
            s[nm] = [scen.monos(rng, dim, 1.0, 1 + y, s['t1']) for _ in range(dim)]
        s['U'] = scen.path_cost(rng, s, 'gen')
    if pid in ('P22', 'P23') and rng.random() < .5:
        s['U'] = scen.path_cost(rng, s, 'strong')
    if fkind == 'identity':         # path cost x[0]: mild for any state
        s['t1'], s['t2'] = 0.0, (k - 1) * .001
    return s


def histories(ctx, n, extra):
    text_n = max(60, int(n * extra))
    args = ['-simulate', 'num=%d' % text_n, '-depth', '140', '-seed', str(1000 + ctx.seed)]
    return common.tlc_start(ctx, 'SimSession', 'SimSession_' + ctx.pid, args=args, workers=1)


def items(ctx, cases, n):
    pid = ctx.pid
    rng = random.Random('%s-%s' % (pid, ctx.seed))
    cases = sorted(cases, key=lambda c: (-c['again'], str(c['ops'])))
    pick = cases[:n * 2 // 3]
    rest = cases[n * 2 // 3:]
    pick += rng.sample(rest, min(len(rest), n - len(pick)))
    out = []
    for j, c in enumerate(pick):
        vary = dict(P18='returns', P19='options').get(pid, 'none')
        fkind = ['poly', 'identity', 'constant'][j % 3] if pid == 'P18' else 'poly'
        bes = (['np', 'th'] if rng.random() < .5 else ['th', 'np'])
        first = conf(rng, pid, bes[j % 2], fkind)
        cfgs = [first]
        if pid == 'P19':
            second = conf(rng, pid, rng.choice(bes), fkind)
            second['dim'] = second['dim']
            for _ in range(50):
                if second['dim'] == first['dim']:
                    break
                second = conf(rng, pid, rng.choice(bes), fkind)
            if second['dim'] != first['dim']:
                second = dict(first)
            cfgs.append(second)
        boxes = ['C', 'C', 'view', 'window', 'F', 'tensor', 'readonly']
        asked = boxes + ['reuse'] * 4 * (pid in ('P12', 'P18'))
        ops = []
        for a in c['ops']:
            a = dict(a)
            if a['op'] != 'seed':
                a['box'] = rng.choice(asked if a['op'] == 'control' else boxes)
            if a['op'] == 'force':
                a.update(fn=rng.choice(['f', 'ftrue']), t=rng.choice([0, .25, 1, rng.uniform(-1, 2)]))
            if a['op'] in ('fail', 'badquery'):
                a.update(exc=rng.getrandbits(16), kind=rng.getrandbits(8), where=rng.random())
            ops.append(a)
            if pid in ('P18', 'P23') and rng.random() < .25:
                fn = rng.choice(purecalls_names.ALL)
                bx = purecalls_names.NP_BOXES if fn in purecalls_names.NUMPY else purecalls_names.TH_BOXES
                ops.append(dict(op='call', fn=fn, box=rng.choice(bx), s=rng.getrandbits(30), dim=rng.choice([1, 2, 3]), N=rng.choice([2, 4, 6]),
                                M=rng.choice([2, 3, 4]), K=rng.choice([1, 2, 5]), scalar=rng.random() < .5, odd=rng.random() < .5))
        if pid == 'P18':    # every style of returning a value from equal random states
            ops = [o for v in (1, 2, 3) for o in (dict(op='seed', s=1), dict(op='build', o=1, c=1, v=v, box=rng.choice(boxes)))] + ops
        if pid == 'P19':
            ops = ([o for q in (1, rng.randint(2, 12), rng.randint(2, 12), 1) for o in (dict(op='seed', s=1), dict(op='build', o=1, c=1, v=q, box='C'))]
                   + ops + [dict(op='seed', s=1), dict(op='build', o=2, c=1, v=6, box='C')])
        if pid in ('P22', 'P23'):    # the same construction before and after the history, and a failure of each function
            def fl():
                return dict(op='fail', o=1, c=1, n=rng.choice([1, 2, 3]), box='C', exc=rng.getrandbits(16), kind=rng.getrandbits(8), where=rng.random())
            head = [dict(op='seed', s=1), dict(op='build', o=1, c=1, v=1, box='C')]
            tail = [dict(op='seed', s=1), dict(op='build', o=2, c=1, v=1, box='C')]
            if pid == 'P22':
                ops = head + [fl(), fl(), fl()] + tail + ops + [fl()] + tail
            else:
                ops = head + [dict(op='configure', v=rng.choice([2, 3]))] + tail + ops + [fl(), dict(op='configure', v=rng.choice([2, 3, 4]))] + tail
        out.append(dict(ops=ops, cfgs=cfgs, real=pid in ('P19', 'P22', 'P23'), vary=vary, ask=ASK[pid], pseed=rng.getrandbits(30)))
    return out


def failures(ctx):
    """every kind of error of every function in every phase of every mode"""
    rng = random.Random('failures-%d' % ctx.seed)
    out = []
    for be in ('np', 'th'):
        for det in (True, False):
            for rw, bb in ((False, False), (False, True), (True, False), (True, True)):
                s = scenario(rng, be, det, rw, bb, rng.choice([5, 8, 12]) if not ctx.deep else 14, dim=rng.choice([1, 2]), N=5, M=3)
                s['fkind'] = 'poly'
                if s['ytype'] == 'tensor':
                    s['ytype'] = 'f8'
                names = ['f'] * 2 + ['U'] * rw + ['ftrue'] * (rw and bb)
                ops = []
                for exc in range(19):
                    for j, name in enumerate(names):
                        for w in ([0, .3, .6] if j == 0 else [.45, .8, 1] if j == 1 else [0, .5, 1]) if not ctx.deep else [q / 28 for q in range(14 * (j == 1), 14 + 15 * (j == 1))]:
                            w = min(1, max(0, w + rng.uniform(-.12, .12)))
                            ops.append(dict(op='fail', o=1, c=1, n=2, box='C', exc=exc, name=name, kind=0, where=w))
                rng.shuffle(ops)
                b = [dict(op='seed', s=1), dict(op='build', o=1, c=1, v=1, box='C')]
                e = [dict(op='seed', s=1), dict(op='build', o=2, c=1, v=1, box='C')]
                for q in range(0, len(ops), 60):
                    out.append(dict(ops=b + ops[q:q + 60] + e, cfgs=[s], real=True, vary='none', ask=ASK['P22'], pseed=1))
    return out


def imports(ctx):
    """imports in fresh interpreters whose user has changed the settings before"""
    rng = random.Random('imports-%d' % ctx.seed)
    out = [dict(root=r, v=v, backend=b, mods=m) for r, v, b, m in
           [('package', 1, 'agg', [0]), ('package', 2, 'svg', [0]), ('top', 3, 'pdf', [0, 1, 2]), ('package', 4, 'agg', [5, 6, 7])]]
    for _ in range(20 if ctx.deep else 2):
        out.append(dict(root=rng.choice(['package', 'top']), v=rng.randint(1, 4), backend=rng.choice(['agg', 'svg', 'pdf', 'ps']),
                        mods=rng.sample(range(8), rng.randint(1, 8))))
    return out


def corrupt(tr, rng):
    t = copy.deepcopy(tr)
    L = t['log']
    kinds = []
    ctl = [n for n, e in enumerate(L) if e['op'] == 'control' and not e['err']]
    dup = [n for n in ctl if any(L[m]['flows'] == L[n]['flows'] and L[m]['i'] == L[n]['i'] and L[m]['before'] == L[n]['before'] and
                                 set(L[m]['b']) & set(L[n]['b']) for m in ctl if m < n)]
    if 'pointwise' in t['ask'] and dup:
        kinds.append('answer')
    # an object present before and after without being built anew
    obj = [n for n in range(1, len(L)) if any(p['o'] == q['o'] and p['gen'] == q['gen'] for p in L[n - 1]['objs'] for q in L[n]['objs'])]
    if obj:
        kinds.append('flows')
    if 'arguments' in t['ask'] and len(L) > 2 and L[-2]['bufs']:
        kinds.append('buffer')
    rep = [n for n, e in enumerate(L) if e['op'] == 'build' and not e['err'] and
           any(f['op'] == 'build' and f['c'] == e['c'] and f['before'] == e['before'] and not f['err'] for f in L[:n])]
    if 'reproducible' in t['ask'] and rep:
        kinds += ['repeat', 'repeat']
    bad = [n for n, e in enumerate(L) if e['op'] == 'fail' and not e['err'] and e['thrown']]
    if 'failures' in t['ask'] and bad:
        kinds += ['reached', 'later']
    if 'settings' in t['ask'] and len(L) > 2:
        kinds += ['set', 'inside', 'printed']
    if not kinds:
        return None
    k = rng.choice(kinds)
    if k == 'reached':
        L[rng.choice(bad)]['reached'] = rng.choice(['none', 'other'])
    elif k == 'later':
        L[rng.choice(bad)]['later'] = 1
    elif k == 'set':
        n = rng.choice([n for n in range(1, len(L)) if L[n]['op'] != 'configure'])
        L[n]['set'][rng.randrange(len(L[n]['set']))] = 'changed'
    elif k == 'inside':
        n = rng.choice([n for n, e in enumerate(L) if n and e['inside']] or [0])
        if n == 0:
            return None
        L[n]['inside'][0][rng.randrange(len(L[n]['set']))] = 'changed'
    elif k == 'printed':
        n = rng.choice([n for n in range(1, len(L)) if L[n]['op'] != 'configure'])
        L[n][rng.choice(['out', 'badlog'])] = True
    elif k == 'answer':
        n = rng.choice(dup)
        for row in L[n]['res']:
            row[:] = [num(dec(x) * 1.001 + .01) for x in row]
    elif k == 'flows':
        n = rng.choice(obj)
        x = rng.choice([q for p in L[n - 1]['objs'] for q in L[n]['objs'] if p['o'] == q['o'] and p['gen'] == q['gen']])
        x['d'] = 'changed'
    elif k == 'buffer':
        n = len(L) - 1
        if L[n]['tgt'] == 1:
            return None
        L[n]['bufs'][0] = 'changed'
    else:
        L[rng.choice(rep)]['flows'] = 'other'
    t['corrupted'] = k
    return t


def merge(trs, more):
    """one log of two executions"""
    for t, u in zip(trs, more):
        if 'crash' in t or 'crash' in u:
            t.update({q: v for q, v in u.items() if q == 'crash'})
            continue
        off = len(t['log'])
        for e in u['log']:
            if 'o' in e:
                e['o'] += 100
            for x in e['objs']:
                x['o'] += 100
                x['gen'] += off
        t['log'] += u['log']


def run(ctx, only=None):
    n = {'P12': 48, 'P18': 54, 'P19': 40, 'P22': 40, 'P23': 40}[ctx.pid] * (6 if ctx.deep else 1)
    sim = histories(ctx, n, 1.7)
    mc = common.tlc_start(ctx, 'MCSession', 'MCSession' + ('_faults' if ctx.pid in ('P22', 'P23') else '') + ('_deep' if ctx.deep else ''), workers=4)
    for m in MISTAKES[ctx.pid]:
        cfg, inv = m.split(':')
        common.model_refute(ctx, 'MCSession', 'MCSession_' + cfg, inv)
    text = common.model_finish_sim(ctx, sim, 'SimSession')
    common.model_finish(ctx, mc, 'MCSession')
    cs = common.cases(text, 'CASE')
    ctx.extra['histories_of_the_model'] = len(cs)
    quiet = [it for it in only if 'mods' in it] if only is not None else imports(ctx) if ctx.pid == 'P23' else []
    its = [it for it in only if 'mods' not in it] if only is not None else items(ctx, cs, n) + (failures(ctx) if ctx.pid == 'P22' else [])
    imported = common.drive(ctx, 'driver_quiet.py', quiet)
    trs = common.drive(ctx, 'driver_session.py', its)
    if ctx.pid == 'P19':     # the same history once more in another process
        merge(trs, common.drive(ctx, 'driver_session.py', its[::-1], env=dict(PYTHONHASHSEED='7'))[::-1])
    if ctx.pid == 'P12':     # the same questions about the same objects in another process, in the opposite order
        other = []
        for it, t in zip(its, trs):
            ops = [(n + 1, a) for n, a in enumerate(t.get('states', ())) if a]
            ops = [dict(a, o=10 + n) for n, a in ops if a['op'] == 'build'] + [dict(a, o=10 + a['gen']) for _, a in ops[::-1] if a['op'] in ('control', 'cover', 'force')]
            other.append(dict(it, ops=ops))
        merge(trs, common.drive(ctx, 'driver_session.py', other[::-1])[::-1])
    its, trs = its + quiet, trs + imported
    for t in trs:
        t.pop('states', None)
    ctx.extra['operations_replayed'] = sum(len(t.get('log', ())) for t in trs)

    def where(it, tr, bad):
        if 'mods' in it:
            return 'importing, settings %d, layout %s: %s' % (it['v'], it['root'], ' '.join(e['msg'] for e in tr['log'])[:200])
        n = min([int(b[1]) for b in bad] or [1])
        ops = [dict((q, v) for q, v in e.items() if q in ('op', 'o', 'c', 'i', 'b', 'fn')) for e in tr['log'][max(0, n - 4):n]]
        return 'configurations %s; operation %d, after %s %s' % (
            [(s['be'], s['det'], s['rw'], s['bb'], s['k'], s.get('fkind')) for s in it['cfgs']], n, ops,
            ' '.join(e['msg'][-250:] for e in tr['log'] if e['err'])[:250])
    common.judge(ctx, 'TraceSession', its, trs, where, corrupt, controls=20 if ctx.deep else 8, chunk=400)
    return ASSUME
