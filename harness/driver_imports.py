"""Imports of spec/Imports.tla in fresh interpreters whose optional libraries are
hidden, replaced or broken (P01).  Without --child: runs one interpreter per item."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def parent(inp, outp):
    res = []
    for it in json.load(open(inp)):
        d = tempfile.mkdtemp(dir=os.getcwd())
        a, b = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        json.dump(it, open(a, 'w'))
        env = dict(os.environ)
        repo = env['PYTHONPATH'].split(':')[0]
        pkg = os.path.join(repo, 'DeterministicParticleFlowControl')
        env.pop('PYTHONPATH')
        env['VERIF_ROOT'] = repo if it['env']['root'] == 'package' else pkg
        env['DUECREDIT_ENABLE'] = 'yes' if it.get('enable') else 'no'
        p = subprocess.run([sys.executable, os.path.abspath(__file__), '--child', a, b], env=env, cwd=d, timeout=300,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if os.path.exists(b):
            res.append(json.load(open(b)))
        else:
            res.append(dict(crash='%s %s' % (p.returncode, p.stdout[-1500:])))
    json.dump(res, open(outp, 'w'))


FAKE = '''
class _Due:
    calls = []
    def _rec(self, *a, **k):
        self.calls.append((a, k))
    cite = load = add = _rec
    def dcite(self, *a, **k):
        self.calls.append((a, k))
        return lambda f: f
    fake = True
due = _Due()
def BibTeX(x): return ('bibtex', x)
def Doi(x): return ('doi', x)
def Url(x): return ('url', x)
'''
BROKEN = dict(
    importerror='raise ImportError("numpy.core.multiarray failed to import")',
    runtimeerror='raise RuntimeError("broken installation")',
    attributeerror='import sys\nsys.no_such_attribute',
    nocite='class D: pass\ndue = D()\nBibTeX = Doi = Url = str\n',
    nonames='version = "0.0"\n',
    usable=FAKE)


def hide(names):
    """finders that do not know the given libraries"""
    class Hider:
        def __init__(self, f):
            self.f = f

        def find_spec(self, name, path=None, target=None):
            if name.split('.')[0] in names:
                return None
            return self.f.find_spec(name, path, target)

        def __getattr__(self, a):
            return getattr(self.f, a)
    sys.meta_path[:] = [Hider(f) for f in sys.meta_path]


NAMES = ['DPFC', 'torched_DPFC', 'my_cdist', 'score_function_multid_seperate', 'score_function_multid_seperate_all_dims',
         'score_function_multid_seperate_old', 'torched_score_function_multid_seperate_all_dims', 'RBF', 'set_device',
         'reweight_optimal_transport_multidim', 'due', 'BibTeX', 'Doi', 'Url']
MODS = {'main': '', 'est': 'score_estimators', 'est.np': 'score_estimators.score_function_estimators',
        'est.torch': 'score_estimators.score_function_estimators_pytorch', 'rew': 'reweighting', 'due': 'due',
        'kern': 'kernels', 'utils': 'utils'}


def modname(root, e):
    if root == 'package':
        return 'DeterministicParticleFlowControl' + ('.' + MODS[e] if MODS[e] else '')
    return MODS[e] or 'DeterministicParticleFlowControl'


def child(inp, outp):
    it = json.load(open(inp))
    env = it['env']
    here = os.path.dirname(outp)
    # nothing of the library or of this harness is on the path but the root under test
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != HERE]
    sys.meta_path[:] = [f for f in sys.meta_path if 'editable' not in str(getattr(f, '__module__', f)).lower() and 'editable' not in str(f).lower()]
    hidden = set()
    if not env['torch']:
        hidden.add('torch')
    if env['due'] != 'installed':
        hidden.add('duecredit')
    if hidden:
        hide(hidden)
    if not env['ot']:      # the emulated pyemd keeps what it needs of ot
        import pyemd      # noqa: F401
        for m in [m for m in sys.modules if m == 'ot' or m.startswith('ot.')]:
            del sys.modules[m]
        hide({'ot'})
    if env['due'] in BROKEN:
        d = os.path.join(here, 'fake')
        os.makedirs(d)
        open(os.path.join(d, 'duecredit.py'), 'w').write(BROKEN[env['due']])
        import importlib.util

        class Fake:
            @staticmethod
            def find_spec(name, path=None, target=None):
                if name == 'duecredit':
                    return importlib.util.spec_from_file_location(name, os.path.join(d, 'duecredit.py'))
        sys.meta_path.insert(0, Fake)
    sys.path.insert(0, os.environ['VERIF_ROOT'])
    import importlib
    out = dict(env=dict(torch=env['torch'], ot=env['ot'], due='usable' if env['due'] == 'installed' else env['due'], root=env['root']),
               log=[], values=[], torchvalues=[], stub=[], device=[], live=-1, msg='')
    got = {}
    for e in it['entries']:
        name = modname(env['root'], e)
        rec = dict(entry=e, ok=True, err='', names=[])
        ns = {}
        try:
            exec('from %s import *' % name, ns)
            rec['names'] = sorted(n for n in NAMES if n in ns)
            m = importlib.import_module(name)
            if e == 'due':      # no star import needed for these
                rec['names'] = sorted(n for n in NAMES if hasattr(m, n))
            elif e == 'main':
                rec['names'] = sorted(set(rec['names']) & {'DPFC', 'torched_DPFC'})
                if env['root'] == 'package':
                    assert set(rec['names']) == {n for n in ('DPFC', 'torched_DPFC') if hasattr(m, n)}, 'attributes of the package'
            got[e] = (m, ns)
        except BaseException as x:
            if isinstance(x, KeyboardInterrupt):
                raise
            rec.update(ok=False, err='ImportError' if isinstance(x, ImportError) else type(x).__name__)
            out['msg'] = '%s: %r' % (name, x)
        out['log'].append(rec)
    try:
        if 'main' in got:
            sys.path.append(HERE)
            observe(out, env, got)
    except Exception:
        import traceback
        out['msg'] = traceback.format_exc()[-1200:]
        out['stub'].append('raised')
    json.dump(out, open(outp, 'w'))


def observe(out, env, got):
    import importlib
    import numpy as np
    from enc import arr
    due = importlib.import_module(modname(env['root'], 'due'))
    if env['due'] == 'installed':
        import duecredit
        out['live'] = int(due.due is duecredit.due)
    else:
        out['live'] = int(getattr(due.due, 'fake', False))
    # the stand-in
    if not out['live']:
        def f(x, y=2):
            "doc"
            return x + y

        def g():
            pass
        d = due.due

        class C:
            pass
        bib = due.BibTeX("@article{a, title={b}}")
        calls = [lambda: d.cite(bib, description='d', path='p'), lambda: d.cite(), lambda: d.cite(1, 2, 3, a=[], b=None),
                 lambda: d.load('f'), lambda: d.load(), lambda: d.add(bib), lambda: d.add(bib, bib, k=1),
                 lambda: due.BibTeX(), lambda: due.BibTeX(1, b=2), lambda: due.Doi('10.1/2'), lambda: due.Doi(),
                 lambda: due.Url('http://x'), lambda: due.Url(a=1), lambda: repr(d), lambda: d.dcite(), lambda: d.dcite(due.Doi('x'), description='y', path='z', cite_module=True)]
        for q, c in enumerate(calls):
            try:
                c()
                out['stub'].append('ok')
            except Exception as x:
                out['stub'].append('raised')
                out['msg'] = 'stub call %d: %r' % (q, x)
        for fn in (f, g, C, len):
            for deco in (lambda: d.dcite(), lambda: d.dcite(due.Doi('10.1/2'), description='x'), lambda: d.dcite(bib, a=1)):
                before = dict(getattr(fn, '__dict__', {}))
                same = deco()(fn) is fn and dict(getattr(fn, '__dict__', {})) == before
                out['stub'].append('ok' if same else 'changed')
        out['stub'].append('ok' if f(1) == 3 and f.__doc__ == 'doc' else 'changed')
    # device helper
    if env['torch']:
        import contextlib
        import io
        import torch
        u = importlib.import_module(modname(env['root'], 'utils'))
        real = torch.cuda.is_available
        try:
            for q in (True, False, True, False, False):
                torch.cuda.is_available = lambda: q
                with contextlib.redirect_stdout(io.StringIO()):
                    a = u.set_device()
                out['device'].append(dict(cuda=q, answer=str(a)))
        finally:
            torch.cuda.is_available = real
    # what the controllers compute
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')

    def fdr(x, t):
        return np.array([-x[0] + np.sin(t), x[0] - 2 * x[1]]) if x.ndim > 1 else np.array([-x[0] + np.sin(t), x[0] - 2 * x[1]])

    def fto(x, t):
        return torch.stack([-x[0] + float(np.sin(t)), x[0] - 2 * x[1]])
    y1, y2 = np.array([1., -.5]), np.array([.2, .3])
    for cfg in (dict(deterministic=True), dict(deterministic=False), dict(deterministic=True, reweight=True, U=lambda x, t: 3 * np.sum(x ** 2, 0) * (1 + t)),
                dict(deterministic=True, reweight=True, brown_bridge=True, f_true=fdr, U=lambda x, t: np.sum(x, 0))):
        np.random.seed(7)
        o = got['main'][1]['DPFC'](0., .012, y1, y2, fdr, .7, 24, 10, **cfg)
        out['values'] += flat(arr, o.Z[:, :3]) + flat(arr, o.B[:, :3])
        if cfg.get('brown_bridge'):
            out['values'] += flat(arr, o.Ztr[:, :3])
        pts = np.array([[.9, -.4], [.5, 0.]])
        for ti in (3, 7):
            out['values'] += flat(arr, o.calculate_u(pts, ti))
    if 'torched_DPFC' in got['main'][1]:
        import torch
        for cfg in (dict(deterministic=True), dict(deterministic=False)):
            torch.manual_seed(7)
            np.random.seed(7)
            o = got['main'][1]['torched_DPFC'](0., .012, torch.tensor(y1), torch.tensor(y2), fto, .7, 24, 10, **cfg)
            out['torchvalues'] += flat(arr, o.Z[:, :3].detach()) + flat(arr, o.B[:, :3].detach())


def flat(arr, a):
    a = a.tolist()

    def go(x):
        if isinstance(x, list):
            for b in x:
                yield from go(b)
        else:
            yield arr(x)
    return list(go(a))


if __name__ == '__main__':
    if sys.argv[1] == '--child':
        child(sys.argv[2], sys.argv[3])
    else:
        parent(sys.argv[1], sys.argv[2])
