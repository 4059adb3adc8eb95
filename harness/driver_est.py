"""Sessions of spec/Estim.tla on the real gradient estimators.
usage: driver_est.py items.json traces.json"""
import json
import sys
import traceback
import warnings

import numpy as np
from enc import arr, num

warnings.simplefilter('ignore')
from DeterministicParticleFlowControl.score_estimators import score_function_estimators as sfe  # noqa: E402
from DeterministicParticleFlowControl.score_estimators import score as legacy  # noqa: E402
try:
    import torch
    from DeterministicParticleFlowControl.score_estimators import score_function_estimators_pytorch as tse
except ImportError:
    torch = None


def box(a, kind):
    a = np.array(a, dtype=float)
    if kind == 'fortran':
        return np.asfortranarray(a)
    if kind == 'view':
        b = np.full((2 * a.shape[0] + 1, a.shape[1] + 2), 7.5)
        v = b[1::2, 1:-1]
        v[...] = a
        return v
    if kind == 'tensor':
        return torch.tensor(a, dtype=torch.float64)
    return a


def lform(ell, form):
    if form == 'float':
        return float(ell[0])
    if form == 'int':
        return int(ell[0])
    if form == 'intlist':
        return [int(v) for v in ell]
    if form == 'intarray':
        return np.array(ell).astype(int)
    if form == 'tensor0':
        return torch.tensor(ell[0], dtype=torch.float64)
    if form == 'npfloat':
        return np.float64(ell[0])
    if form == 'list':
        return [float(v) for v in ell]
    if form == 'tuple':
        return tuple(float(v) for v in ell)
    if form == 'array':
        return np.array(ell, dtype=float)
    if form == 'view':
        return np.repeat(np.array(ell, dtype=float), 2)[::2]
    return torch.tensor(ell, dtype=torch.float64)


def call(c, pr, func):
    X, S = box(pr['X'], c['box']), box(pr['S'], c['box'])
    kw = dict(func_out=func, C=pr['C'], l=lform(pr['ell'], c['form']))
    if pr.get('defaultC'):
        kw.pop('C')
    if not func and pr['bare']:
        kw.pop('func_out')
    im = c['impl']
    if im in ('sep', 'old', 'leg'):
        fn = {'sep': sfe.score_function_multid_seperate, 'old': sfe.score_function_multid_seperate_old,
              'leg': legacy.score_function_multid_seperate2}[im]
        return fn(X, S, which=1, which_dim=c['d'], **kw)
    if im == 'all':
        return sfe.score_function_multid_seperate_all_dims(X, S, **kw)
    return tse.torched_score_function_multid_seperate_all_dims(X, S, **kw)


def rows(v, c):
    if torch is not None and torch.is_tensor(v):
        v = v.detach().double().numpy()
    v = np.asarray(v, dtype=float)
    if c['d']:
        return v.reshape(1, -1) if v.ndim == 1 or 1 in v.shape else v
    return v.T if v.ndim == 2 else v.reshape(1, -1)


def run(it):
    pr = it['problem']
    tr = dict(X=arr(pr['X']), S=arr(pr['S']), Q=[arr(q) for q in pr['Q']], ell=arr(pr['ell']), C=num(pr['C']),
              want=it['want'], ans=[])
    for i, ses in enumerate(it['sessions']):
        h = {}
        for st in ses:
            c = st['call']
            a = dict(i=i, op=st['op'], impl=c['impl'], d=c['d'], q=st['q'], err=False, val=[], msg='')
            try:
                if st['op'] == 'make':
                    h[st['h']] = call(c, pr, True)
                    continue
                if st['op'] == 'direct':
                    v = call(c, pr, False)
                else:
                    q = pr['X'] if st['q'] == 0 else pr['Q'][st['q'] - 1]
                    v = h[st['h']](box(q, c['box']))
                a['val'] = arr(rows(v, c))
            except Exception:
                a['err'] = True
                a['msg'] = traceback.format_exc(limit=-3)
                if st['op'] == 'make':
                    tr['ans'].append(a)
                    break
            tr['ans'].append(a)
    return tr


if __name__ == '__main__':
    items = json.load(open(sys.argv[1]))
    json.dump([run(i) for i in items], open(sys.argv[2], 'w'))
