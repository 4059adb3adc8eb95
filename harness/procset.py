"""Settings of the process as a list of digests, in the order of SETTINGS; configure changes them as a user may."""
import hashlib
import logging
import os
import random
import sys
import tempfile
import warnings

import numpy as np
try:
    import torch
except ImportError:
    torch = None

SCRATCH = tempfile.gettempdir()
root = logging.getLogger()


SETTINGS = ['numpy errors', 'numpy printing', 'torch dtype', 'torch gradients', 'torch threads', 'torch printing', 'numba threads', 'warning filters',
            'logging', 'environment', 'directory', 'module path', 'python', 'output streams', 'figures', 'files']


def text(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=6).hexdigest()


def settings():
    tp = ('torch', None, None, None, None)
    if torch is not None:
        po = torch._tensor_str.PRINT_OPTS
        tp = (str(torch.get_default_dtype()), (torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_anomaly_enabled()),
              (torch.get_num_threads(), torch.are_deterministic_algorithms_enabled()), [(q, repr(v)) for q, v in sorted(vars(po).items())], None)
    nb = sys.modules.get('numba')
    plt = sys.modules.get('matplotlib.pyplot')
    return [text(v) for v in (
        (np.geterr(), np.geterrcall()), sorted((q, repr(v)) for q, v in np.get_printoptions().items()), tp[0], tp[1], tp[2], tp[3],
        nb.get_num_threads() if nb is not None else None, [repr(f) for f in warnings.filters],
        (root.level, logging.root.manager.disable, [id(h) for h in root.handlers], logging.raiseExceptions, logging.lastResort is None),
        sorted(os.environ.items()), os.getcwd(), sys.path, (sys.getrecursionlimit(), sys.getswitchinterval(), id(sys.excepthook)),
        (id(sys.stdout), id(sys.stderr)), plt.get_fignums() if plt is not None else [], sorted(os.listdir(SCRATCH)))]


def configure(v):
    """settings of a user; v = 1 the usual ones"""
    np.seterr(all='warn' if v != 3 else 'ignore')
    np.set_printoptions(precision=3 if v == 2 else 8, suppress=v == 3)
    if torch is not None:
        torch.set_grad_enabled(v != 2)
        torch.set_printoptions(precision=3 if v == 4 else 4)
        torch.set_num_threads(1 if v == 3 else 2)
    nb = sys.modules.get('numba')
    if nb is not None:
        nb.set_num_threads(2 if v == 3 else 1)
    root.setLevel({1: logging.WARNING, 2: logging.INFO, 3: logging.DEBUG, 4: logging.ERROR}[v])
    logging.disable(logging.CRITICAL if v == 4 else logging.NOTSET)
    warnings.resetwarnings()
    warnings.simplefilter('ignore' if v == 4 else 'always')
    os.environ['VERIF_USER'] = str(v)
    os.chdir(SCRATCH if v % 2 else os.path.join(SCRATCH, 'sub'))
    sys.setrecursionlimit(1000 + 100 * v)


MORE = SETTINGS + ['matplotlib', 'random numbers']


def more():
    """for comparisons around an import, slower"""
    mpl = sys.modules.get('matplotlib')
    st = np.random.get_state()
    return settings() + [text(sorted((q, repr(v)) for q, v in mpl.rcParams.items())) if mpl is not None else '',
                         text((st[1].tolist(), st[2:], random.getstate(), torch.get_rng_state().tolist() if torch is not None else None))]
