"""Calls of the public functions outside the controllers, for P18: arguments in
all container types; returns (arguments, function giving the list of results)."""
import numpy as np
from driver_flow import torch
from DeterministicParticleFlowControl.score_estimators import score_function_estimators as sfe
from DeterministicParticleFlowControl.score_estimators import score as legacy
from DeterministicParticleFlowControl.reweighting.optimal_transport_reweighting import reweight_optimal_transport_multidim
from DeterministicParticleFlowControl.score_estimators import score_function_estimators_pytorch as tse
from DeterministicParticleFlowControl.kernels.RBF_pytorch import RBF


def box(a, kind):
    a = np.array(a, dtype=float)
    if kind == 'F':
        return np.asfortranarray(a)
    if kind == 'view':
        return np.repeat(a, 2, axis=0)[::2]
    if kind == 'window':
        b = np.full(tuple(n + 2 for n in a.shape), 1.5)
        v = b[tuple(slice(1, -1) for _ in a.shape)]
        v[...] = a
        return v
    if kind == 'tensor':
        return torch.tensor(a, dtype=torch.float64)
    if kind == 'f32':
        return torch.tensor(a, dtype=torch.float32)
    return a


def prepare(a, rng):
    fn, kind = a['fn'], a['box']
    dim, N, M, K = a['dim'], a['N'], a['M'], a['K']
    X, S, Q = (box(rng.normal(size=(n, dim)), kind) for n in (N, M, K))
    for A in (X, S, Q):      # coordinates of unusual size, the same point twice
        if a.get('odd') and len(A):
            for _ in range(3):
                A[int(rng.integers(len(A))), int(rng.integers(dim))] = float(rng.choice([0.0, -0.0, 1e-10, -1e-7, 1e-300, 12.5, -3e3]))
            A[-1] = A[0]
    ell = rng.uniform(.5, 2, size=dim)
    scalar = a['scalar']
    if scalar:
        l = float(ell[0])
    else:
        l = box(ell, kind if kind in ('tensor', 'view') else 'C')
    w = rng.random(N) + .05
    if a.get('odd'):     # one dominating weight
        w[int(rng.integers(N))] += 20
    w /= w.sum()
    d = int(rng.integers(dim)) + 1
    if fn.split('_')[0] in ('sep', 'old', 'legacy'):
        f = {'sep': sfe.score_function_multid_seperate, 'old': sfe.score_function_multid_seperate_old,
             'legacy': legacy.score_function_multid_seperate2}[fn.split('_')[0]]
        out = fn.endswith('_fun')
        args = [X, S] + ([] if scalar else [l]) + ([Q] if out else [])

        def go(*args):
            r = f(args[0], args[1], func_out=out, C=.001, l=l if scalar else args[2], which=1, which_dim=d)
            return [r(args[-1]), r(args[-1])] if out else [r]
        return args, go
    if fn in ('all', 'all_fun', 'torch', 'torch_fun'):
        f = sfe.score_function_multid_seperate_all_dims if fn.startswith('all') else tse.torched_score_function_multid_seperate_all_dims
        out = fn.endswith('_fun')
        args = [X, S] + ([] if scalar else [l]) + ([Q] if out else [])

        def go(*args):
            r = f(args[0], args[1], func_out=out, C=.001, l=l if scalar else args[2])
            return [r(args[-1]), r(args[-1])] if out else [r]
        return args, go
    if fn == 'weights':
        W = box(w.reshape(-1, 1) if scalar else w, kind)
        return [X, W], lambda x, v: [reweight_optimal_transport_multidim(x, v)]
    if fn == 'dist':
        out = np.full((N, M), np.nan)
        return [X, S], lambda x, y: (sfe.my_cdist(x, y, out, 'euclidean' if scalar else 'sqeuclidean'), [out])[1]
    k = RBF(length_scale=l, signal_variance=1.3, multil=not scalar)
    m = k.Kernel if fn == 'kernel' else k.gradient_X
    args = [X, S] + ([] if scalar else [l])
    return args, lambda *v: [m(v[0], v[1]), m(v[0], v[1])] + ([k.Kernel(v[0])] if fn == 'kernel' else [])
