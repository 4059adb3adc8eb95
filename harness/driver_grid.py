"""Time grids and storage of real objects (P02)."""
import json
import logging
import sys
import traceback
import warnings

import numpy as np
from enc import arr, num
import driver_flow as df
import rngtap

warnings.simplefilter('ignore')
logging.disable(logging.CRITICAL)


def time_of(a, form):
    if form == 'int' and a % 10000 == 0:
        return a // 10000
    if form == 'np':
        return np.float64(a / 10000)
    if form == 'acc':       # a value reached by summing up steps
        return (a // 10) * 0.001 + (a % 10) * 0.0001
    return a / 10000


def run(s):
    rngtap.tap.start(s['seed'])
    t1, t2 = time_of(s['a1'], s['form'][0]), time_of(s['a2'], s['form'][1])
    if s['form'][2]:
        t2 = t1 + (s['a2'] - s['a1']) / 10000
    s = dict(s, t1=t1, t2=t2)
    tr = dict(t1=num(t1), t2=num(t2), dim=s['dim'], N=s['N'], rw=s['rw'], bb=s['bb'], grid=[], k=0, flows=[], err=False, msg='')
    try:
        o = df.build(s, [])
        tr['grid'] = arr(df.to_np(o.timegrid))
        tr['k'] = int(o.k)
        for nm in ('Z', 'B', 'Ztr'):
            if hasattr(o, nm):
                A = getattr(o, nm)
                tr['flows'].append(dict(name=nm, shape=[int(q) for q in A.shape], dtype=str(A.dtype).split('.')[-1]))
    except Exception:
        tr['err'] = True
        tr['msg'] = traceback.format_exc(limit=-4)
    rngtap.tap.stop()
    return tr


if __name__ == '__main__':
    items = json.load(open(sys.argv[1]))
    json.dump([run(i) for i in items], open(sys.argv[2], 'w'))
