"""The reweighting function on given samples and weights (P08)."""
import json
import sys
import traceback
import warnings

import numpy as np
from enc import arr
import replica

warnings.simplefilter('ignore')
from DeterministicParticleFlowControl.reweighting.optimal_transport_reweighting import reweight_optimal_transport_multidim  # noqa: E402


def run(it):
    X, w = np.array(it['X'], dtype=float), np.array(it['w'], dtype=float)
    tr = dict(X=arr(X), w=arr(w), T=[], u=[], v=[], err=False, msg='', uniform=it['uniform'])
    xin = {'c': X.copy(), 'f': np.asfortranarray(X), 't': X.T.copy().T, 'v': np.repeat(X, 2, axis=0)[::2]}[it['form']]
    win = w.reshape(-1, 1) if it['wform'] == 'col' else (np.repeat(w, 2)[::2] if it['wform'] == 'view' else w.copy())
    try:
        for _ in range(it['calls']):        # the last of several calls counts
            T = reweight_optimal_transport_multidim(xin, win)
        tr['T'] = arr(np.asarray(T, dtype=float))
    except Exception:
        tr['err'] = True
        tr['msg'] = traceback.format_exc(limit=-3)
        return tr
    C = replica.dist(X, 'np')
    _, u, v = replica.ot_exact(C, w)
    u, v = replica.fix_duals(C, u, v)
    best = replica.ot_lp(C, w) if len(w) > 1 else None
    if best is not None:
        u2, v2 = replica.fix_duals(C, best[1], best[2])
        if (u2 * w).sum() + v2.sum() / len(w) > (u * w).sum() + v.sum() / len(w):
            u, v = u2, v2
    tr['u'], tr['v'] = arr(u), arr(v)
    return tr


if __name__ == '__main__':
    items = json.load(open(sys.argv[1]))
    json.dump([run(i) for i in items], open(sys.argv[2], 'w'))
