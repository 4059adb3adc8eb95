"""Importing the package in a fresh interpreter (P23): settings of the process before and
after, what is printed.  The libraries it depends on are imported first.  Without
--child: runs one interpreter per item."""
import json
import os
import subprocess
import sys
import tempfile

LIBS = ['numpy', 'scipy.linalg', 'scipy.spatial.distance', 'numba', 'ot', 'pyemd', 'torch', 'duecredit', 'matplotlib', 'matplotlib.pyplot']
MODS = ['', 'score_estimators', 'reweighting', 'kernels', 'utils', 'score_estimators.score', 'kernels.RBF_pytorch', 'utils.utils_pytorch']


def parent(inp, outp):
    res = []
    for it in json.load(open(inp)):
        d = tempfile.mkdtemp(dir=os.getcwd())
        a, b = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(a, 'w') as h:
            json.dump(it, h)
        env = dict(os.environ)
        repo = env['PYTHONPATH'].split(':')[0]
        env['PYTHONPATH'] = repo if it['root'] == 'package' else os.path.join(repo, 'DeterministicParticleFlowControl')
        p = subprocess.run([sys.executable, os.path.abspath(__file__), '--child', a, b], env=env, cwd=d, timeout=300,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if os.path.exists(b):
            with open(b) as h:
                t = json.load(h)
            t['log'][-1]['out'] = bool(p.stdout.split('IMPORTS')[-1].strip())
            t['log'][-1]['msg'] += p.stdout.split('IMPORTS')[-1][:300]
            res.append(t)
        else:
            res.append(dict(crash='%s %s' % (p.returncode, (p.stdout + p.stderr)[-1500:])))
    json.dump(res, open(outp, 'w'))


def child(inp, outp):
    it = json.load(open(inp))
    import importlib
    for lib in LIBS:
        try:
            importlib.import_module(lib)
        except Exception:
            pass
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import procset
    procset.SCRATCH = os.getcwd()
    os.mkdir('sub')
    import matplotlib
    matplotlib.use(it['backend'])
    procset.configure(it['v'])
    print('IMPORTS', flush=True)
    log = []

    def event(op):
        log.append(dict(op=op, err=False, msg='', objs=[], bufs=[], tgt=0, set=procset.more(), inside=[], out=False, badlog=False, first=not log))
    sys.path.pop(0)
    event('begin')
    for m in it['mods']:
        name = MODS[m]
        if it['root'] == 'package':
            name = 'DeterministicParticleFlowControl' + ('.' + name if name else '')
        else:
            name = name or 'DeterministicParticleFlowControl'
        try:
            importlib.import_module(name)
        except Exception as e:
            if it['root'] == 'package':
                log.append(dict(log[-1], op='import', msg='%s: %r' % (name, e), first=False))
                continue
        event('import')
    with open(outp, 'w') as h:
        json.dump(dict(dim=1, ask=['settings'], log=log, names=procset.MORE), h)


if __name__ == '__main__':
    if sys.argv[1] == '--child':
        child(*sys.argv[2:])
    else:
        parent(*sys.argv[1:])
