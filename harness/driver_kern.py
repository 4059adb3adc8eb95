"""Sessions of spec/Kernel.tla with real kernel objects (P16)."""
import json
import sys
import traceback
import warnings

import numpy as np
from enc import arr, num

warnings.simplefilter('ignore')
import torch  # noqa: E402
from DeterministicParticleFlowControl.kernels.RBF_pytorch import RBF  # noqa: E402


def pts(p, box):
    a = np.array(p, dtype=float)
    if box == 'tensor':
        return torch.tensor(a, dtype=torch.float64)
    if box == 'grad':
        return torch.tensor(a, dtype=torch.float64, requires_grad=True)
    if box == 'view':
        return np.repeat(a, 2, axis=0)[::2]
    return a


def make(o):
    kw = {}
    if o['sv'] != 1.0 or not o['default']:
        kw['signal_variance'] = o['sv']
    ell = o['ell']
    f = o['form']
    if f == 'scalar':
        l = float(ell[0])
    elif f == 'tensor0':
        l = torch.tensor(ell[0], dtype=torch.float64)
    else:
        kw['multil'] = True
        l = {'array': np.array, 'list': list, 'tensor': lambda v: torch.tensor(v, dtype=torch.float64)}[f](ell)
    if not (o['default'] and f == 'scalar' and l == 1.0):
        kw['length_scale'] = l
    if o['device']:
        kw['device'] = o['device']
    return RBF(**kw)


def run(it):
    tr = dict(sets=[arr(s) for s in it['sets']], objects=[dict(sv=num(o['sv']), ell=arr(o['ell'])) for o in it['objects']], log=[])
    objs = {}
    for a in it['session']:
        r = dict(a, err=False, val=[], msg='')
        o = a['o']
        try:
            if o not in objs:
                objs[o] = make(it['objects'][o - 1])
            X = pts(it['sets'][a['x'] - 1], it['box'][a['x'] - 1])
            Y = None if a['y'] == 0 else pts(it['sets'][a['y'] - 1], it['box'][a['y'] - 1])
            fn = objs[o].Kernel if a['op'] == 'value' else objs[o].gradient_X
            v = fn(X) if Y is None and it['omit'] else fn(X, Y)
            r['val'] = arr(v.detach().double().numpy())
        except Exception:
            r['err'] = True
            r['msg'] = traceback.format_exc(limit=-3)
        tr['log'].append(r)
    return tr


if __name__ == '__main__':
    items = json.load(open(sys.argv[1]))
    json.dump([run(i) for i in items], open(sys.argv[2], 'w'))
