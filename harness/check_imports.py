"""P01: environments and import histories of Imports.tla in real interpreters, judged by TraceImports.tla."""
import copy
import random

import common
from enc import num, dec

ASSUME = ['a library that is absent is one the import system does not find; one that is broken raises ImportError, RuntimeError or AttributeError, or lacks the names',
          'only the citation library is taken as possibly broken; matplotlib, numba, scipy and pyemd are required',
          'results are compared to 1e-9 with those of an interpreter in which every library is there']
MISTAKES = ['hardtorch', 'harddue', 'narrowdue', 'topkern', 'relkern', 'exportall']


def items(ctx, cases):
    rng = random.Random('P01-%s' % ctx.seed)
    by = {}
    for c in cases:
        e = c['env']
        by.setdefault((e['torch'], e['ot'], e['due'], e['root']), []).append(c)
    out = []
    for k in sorted(by):
        n = 8 if ctx.deep else 1
        for c in rng.sample(by[k], n):
            env = dict(c['env'])
            if env['due'] == 'usable' and rng.random() < .5:
                env['due'] = 'installed'
            out.append(dict(env=env, entries=list(c['entries']) + ['main'], enable=rng.random() < .5))
    # every module once, in both roots
    for root in ('package', 'top'):
        for t in (True, False):
            es = ['est', 'est.np', 'est.torch', 'rew', 'due', 'kern', 'utils']
            rng.shuffle(es)
            out.append(dict(env=dict(torch=t, ot=t, due='absent', root=root), entries=es + ['main'], enable=False))
    return out


REF = dict(env=dict(torch=True, ot=True, due='absent', root='package'), entries=['main'], enable=False)


def corrupt(tr, rng):
    t = copy.deepcopy(tr)
    k = rng.choice(['names', 'value', 'device', 'live', 'extra'])
    if k == 'names':
        a = t['log'][-1]
        a['names'] = [n for n in a['names'] if n != 'DPFC']
    elif k == 'value':
        i = rng.randrange(len(t['values']))
        t['values'][i] = num(dec(t['values'][i]) + 1e-6 * (1 + abs(dec(t['values'][i]))))
    elif k == 'device':
        t['device'] = [dict(cuda=True, answer='cpu')]
    elif k == 'live':
        t['live'] = 1 - t['live']
    else:
        if t['env']['torch']:
            t['log'][-1]['names'] = [n for n in t['log'][-1]['names'] if n != 'torched_DPFC']
        else:
            t['log'][-1]['names'].append('torched_DPFC')
    t['corrupted'] = '%s in %s' % (k, t['env'])
    return t


def run(ctx, only=None):
    ps = [common.tlc_start(ctx, 'MCImports', 'MCImports_' + m, workers=1) for m in MISTAKES]
    text = common.model_check(ctx, 'MCImports', 'MCImports_deep' if ctx.deep else None)
    import re
    for m, p in zip(MISTAKES, ps):
        rc, out, gen, dist = common.tlc_finish(ctx, p)
        if rc not in (10, 11, 12, 13) or not re.search(r'is violated', out):
            raise common.Machinery('MCImports_%s: the mistake in the model was not found\n%s' % (m, out[-2000:]))
        common.count_model(ctx, 'MCImports_%s (mistake, refuted)' % m, gen, dist)
    cs = common.cases(text, 'CASE')
    ctx.extra['histories_of_the_model'] = len(cs)
    its = only if only is not None else items(ctx, cs)
    ctx.extra['environments_replayed'] = len({str(sorted(i['env'].items())) for i in its})
    trs = common.drive(ctx, 'driver_imports.py', [REF] + its)
    ref, trs = trs[0], trs[1:]
    if 'crash' in ref:
        ctx.violation('interpreter died with every library there: %s' % ref['crash'][-600:], REF)
        return ASSUME
    for t in [ref] + trs:
        if 'crash' not in t:
            t['ref'], t['torchref'] = ref['values'], ref['torchvalues']

    def where(it, tr, bad):
        return 'libraries %s, imports %s: %s' % (it['env'], it['entries'], tr['msg'][-300:])
    common.judge(ctx, 'TraceImports', [REF] + its, [ref] + trs, where, corrupt, controls=16 if ctx.deep else 8, chunk=2000)
    return ASSUME
