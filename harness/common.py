"""Running TLC and drivers, collecting verdicts, writing evidence."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


class Machinery(Exception):
    """the check itself failed; not a verdict about the code"""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.deep = tier == 'thorough'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.states = self.transitions = self.traces = 0
        self.controls = 0
        self.violations = []      # (what, replay object)
        self.samples = []
        self.models = []
        self.extra = {}

    def path(self, name):
        return os.path.join(self.dir, name)

    def violation(self, what, replay):
        self.violations.append((what, replay))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def classes():
    """compiled overrides of spec/BigNum.tla"""
    src = os.path.join(VERIF, 'java', 'BigNum.java')
    out = os.path.join(VERIF, 'build', 'classes')
    cls = os.path.join(out, 'BigNum.class')
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        tmp = tempfile.mkdtemp(prefix='verif-javac-')
        r = subprocess.run(['javac', '-cp', '/opt/veriftools/tla/tla2tools.jar', '-d', tmp, src],
                           capture_output=True, text=True)
        if r.returncode:
            raise Machinery('javac: ' + r.stderr)
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(tmp):
            shutil.move(os.path.join(tmp, f), os.path.join(out, f))
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def setup():
    """compiles the overrides and compares them with the definitions in TLA+"""
    ctx = Ctx('setup', 'quick', 1)
    try:
        model_check(ctx, 'BigNumTest')
        print('BigNumTest: %s' % ctx.models)
        return 0
    except Machinery as e:
        print('MACHINERY: %s' % e)
        return 2
    finally:
        ctx.close()


def tlc_start(ctx, module, cfg=None, env=None, workers=8, args=(), heap='6g'):
    lib = classes()
    meta = tempfile.mkdtemp(prefix='meta-', dir=ctx.dir)
    T = '/opt/veriftools/tla/'
    cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp',
           ':'.join([lib, T + 'tla2tools.jar', T + 'CommunityModules-deps.jar']), 'tlc2.TLC',
           '-config', (cfg or module) + '.cfg', '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE']
    cmd += list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    out = open(os.path.join(meta, 'out.txt'), 'w+')
    p = subprocess.Popen(cmd, cwd=os.path.join(VERIF, 'spec'), env=e, stdout=out, stderr=subprocess.STDOUT)
    p._out, p._name = out, module
    return p


def tlc_finish(ctx, p, timeout=840):
    try:
        rc = p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Machinery('%s: TLC exceeded %d s' % (p._name, timeout))
    p._out.seek(0)
    text = p._out.read()
    p._out.close()
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
    gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    return rc, text, gen, dist


def model_check(ctx, module, cfg=None, env=None, args=(), workers=8):
    """design check: has to succeed, it does not depend on the code"""
    rc, text, gen, dist = tlc_finish(ctx, tlc_start(ctx, module, cfg, env, workers, args))
    if rc != 0 or 'No error has been found' not in text:
        raise Machinery('%s: %s' % (module, text[-3000:]))
    count_model(ctx, cfg or module, gen, dist)
    return text


def model_refute(ctx, module, cfg, what, args=()):
    """a mistake built into the model has to be found by its properties"""
    rc, text, gen, dist = tlc_finish(ctx, tlc_start(ctx, module, cfg, workers=4, args=args))
    if rc not in (10, 11, 12, 13) or not re.search(r'%s (is|was) violated' % what, text):
        raise Machinery('%s: the mistake in the model was not found\n%s' % (cfg, text[-2000:]))
    count_model(ctx, cfg + ' (mistake, refuted)', gen, dist)


def count_model(ctx, name, gen, dist):
    ctx.states += dist
    ctx.transitions += gen
    ctx.models.append(dict(model=name, distinct_states=dist, states_generated=gen))


def model_finish(ctx, p, name):
    rc, text, gen, dist = tlc_finish(ctx, p)
    if rc != 0 or 'No error has been found' not in text:
        raise Machinery('%s: %s' % (name, text[-3000:]))
    count_model(ctx, name, gen, dist)
    return text


def model_finish_sim(ctx, p, name):
    """behaviours drawn in simulation mode"""
    rc, text, gen, dist = tlc_finish(ctx, p)
    if rc != 0 or 'Error' in text:
        raise Machinery('%s: %s' % (name, text[-3000:]))
    m = re.search(r'The number of states generated: ([\d,]+)', text)
    n = int(m.group(1).replace(',', '')) if m else 0
    ctx.states += n
    ctx.transitions += n
    ctx.models.append(dict(model=name + ' (simulation)', states_generated=n))
    return text


def verdicts(text):
    """{trace index: (steps, [(clause, index)])} from the printed verdicts (long ones are broken over lines)"""
    out = {}
    for m in re.finditer(r'<<\s*"VERDICT",\s*(\d+),\s*(\d+),\s*\{(.*?)\}\s*>>', text, re.S):
        out[int(m.group(1)) - 1] = (int(m.group(2)), re.findall(r'<<\s*"([^"]+)",\s*(-?\d+)\s*>>', m.group(3)))
    return out


def trace_check(ctx, module, traces, cfg=None, workers=8, heap='10g', env=None):
    """validates recorded traces; returns {index: (checked steps, [clauses])}"""
    f = ctx.path('traces-%s.json' % module)
    with open(f, 'w') as h:
        json.dump(traces, h)
    e = dict(TRACES=f)
    e.update(env or {})
    t0 = time.time()
    rc, text, gen, dist = tlc_finish(ctx, tlc_start(ctx, module, cfg, e, workers, heap=heap))
    if os.environ.get('VERIF_PROFILE'):
        print('  TLC %s: %d traces, %.1f MB, %.1f s' % (module, len(traces), os.path.getsize(f) / 1e6, time.time() - t0))
    os.remove(f)
    out = verdicts(text)
    if rc != 0 or len(out) != len(traces):
        raise Machinery('%s: exit %s, %d verdicts for %d traces\n%s' % (module, rc, len(out), len(traces), text[-3000:]))
    ctx.states += dist
    ctx.transitions += gen
    return out


ENV = dict(PYTHONPATH='%s:%s' % (REPO, os.path.join(VERIF, 'harness')), PYTHONDONTWRITEBYTECODE='1',
           DUECREDIT_ENABLE='no', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           MKL_NUM_THREADS='1', NUMBA_CACHE_DIR='', HOME='/tmp')


def drive(ctx, script, items, procs=8, timeout=600, env=None):
    """runs a driver on the items, split over processes; results in order"""
    if not items:
        return []
    procs = max(1, min(procs, len(items)))
    # heavy items are spread by dealing them out in turn
    order = [list(range(i, len(items), procs)) for i in range(procs)]
    e = dict(os.environ)
    e.update(ENV)
    e['NUMBA_CACHE_DIR'] = ctx.path('numba')
    e.pop('VERIF_TIER', None)
    e.update(env or {})
    ps = []
    for i, idx in enumerate(order):
        a, b = ctx.path('in-%s-%d.json' % (os.path.basename(script), i)), ctx.path('out-%s-%d.json' % (os.path.basename(script), i))
        with open(a, 'w') as h:
            json.dump([items[j] for j in idx], h)
        if os.path.exists(b):
            os.remove(b)
        err = open(ctx.path('err-%d.txt' % i), 'w+')
        ps.append((subprocess.Popen([PY, os.path.join(VERIF, 'harness', script), a, b], env=e, cwd=ctx.dir,
                                    stdout=err, stderr=subprocess.STDOUT), idx, b, err))
    res = [None] * len(items)
    t0 = time.time()
    dead = t0 + timeout
    for p, idx, b, err in ps:
        try:
            p.wait(timeout=max(1, dead - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        err.seek(0)
        msg = err.read()[-3000:]
        err.close()
        if os.path.exists(b):
            try:
                with open(b) as h:
                    r = json.load(h)
                for j, x in zip(idx, r):
                    res[j] = x
            except ValueError:
                pass
        for j in idx:
            if res[j] is None:
                res[j] = dict(crash=msg or 'no output (exit %s)' % p.returncode)
    if os.environ.get('VERIF_PROFILE'):
        print('  driver %s: %d items, %.1f s' % (script, len(items), time.time() - t0))
    return res


def cases(text, tag):
    """values printed by a model as PrintT(tag \\o " " \\o ToJson(value)); without repetitions, in a fixed order"""
    out = set()
    for m in re.finditer(r'^"%s (.*)"$' % tag, text, re.M):
        out.add(json.loads('"' + m.group(1) + '"'))
    return [json.loads(x) for x in sorted(out)]


def judge(ctx, module, items, traces, where, corrupt=None, controls=6, chunk=150, cfg=None, env=None):
    """validates the recorded traces against a trace specification, together with
    corrupted copies that have to be rejected"""
    good = []
    for it, t in zip(items, traces):
        if 'crash' in t:
            ctx.violation('interpreter died: %s' % t['crash'][-600:], it)
        else:
            good.append((it, t))
    rng = random.Random('neg-%s-%s' % (ctx.pid, ctx.seed))
    neg = []
    if corrupt is not None:
        cand = [t for _, t in good]
        rng.shuffle(cand)
        for t in cand:
            c = corrupt(t, rng)
            if c is not None:
                neg.append(c)
            if len(neg) >= controls:
                break
    alltr = [t for _, t in good] + neg
    verd = {}
    for a in range(0, len(alltr), chunk):
        part = trace_check(ctx, module, alltr[a:a + chunk], cfg=cfg, env=env)
        verd.update({a + i: v for i, v in part.items()})
    steps, clean = 0, True
    for i, (it, t) in enumerate(good):
        n, bad = verd[i]
        steps += n
        ctx.traces += 1
        if bad:
            clean = False
            ctx.violation('%s: %s' % (', '.join(sorted({b[0] for b in bad})), where(it, t, bad)), it)
        elif len(ctx.samples) < 3:
            ctx.samples.append(dict(trace=where(it, t, [])[:300] if corrupt is None else str(t.get('name', i)), checked=n, verdict='accepted'))
    for j, t in enumerate(neg):
        n, bad = verd[len(good) + j]
        if bad:
            ctx.controls += 1
            if len(ctx.samples) < 6:
                ctx.samples.append(dict(negative_control=t['corrupted'], rejected_by=[list(b) for b in bad][:3]))
        elif clean:
            raise Machinery('negative control accepted: %s' % t['corrupted'])
    ctx.extra['steps_compared'] = ctx.extra.get('steps_compared', 0) + steps
    if clean and not ctx.violations and (steps == 0 or (corrupt is not None and not neg)):
        raise Machinery('nothing was compared')


def known(pid):
    """findings recorded as not repaired: list of clause patterns"""
    f = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as h:
        return [e for e in json.load(h).get('findings', []) if e['property'] == pid]


def finish(ctx, assumptions):
    """prints the outcome, writes evidence, returns the exit code"""
    pid = ctx.pid
    kf = known(pid)
    new, seen = [], set()
    for what, rep in ctx.violations:
        hit = [e for e in kf if re.search(e['match'], what)]
        if hit:
            for e in hit:
                seen.add(e['what'])
        else:
            new.append((what, rep))
    for w in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               negative_controls_rejected=ctx.controls, models=ctx.models, samples=ctx.samples[:6])
    cov.update(ctx.extra)
    ev = dict(property=pid, tier=ctx.tier, seed=ctx.seed, level='model_checking', coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as h:
        json.dump(ev, h, indent=1)
    if new:
        rd = os.path.join(VERIF, 'build', 'replay')
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, '%s.json' % pid)
        with open(path, 'w') as h:
            json.dump(dict(property=pid, seed=ctx.seed, tier=ctx.tier,
                           violations=[dict(what=w, replay=r) for w, r in new[:20]]), h, indent=1)
        for w, _ in new[:8]:
            print('  ' + w)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('OK property=%s %d traces, %d states, %d negative controls, %.1f s'
          % (pid, ctx.traces, ctx.states, ctx.controls, time.time() - ctx.t0))
    return 0
