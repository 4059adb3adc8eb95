"""Random numbers under the control of the harness.

install() replaces the drawing functions of numpy.random (and torch) by versions
that take their unit draws from a private generator and log them: standard
normals on tap.n and unit uniforms on tap.u, in drawing order.  Nothing in
/repo is changed.  With tap.live = False the original functions are used."""
import numpy as np


class Tap:
    def __init__(self):
        self.live = False
        self.rng = np.random.Generator(np.random.PCG64(0))
        self.n = []
        self.u = []

    def start(self, seed):
        self.rng = np.random.Generator(np.random.PCG64(seed))
        self.n = []
        self.u = []
        self.live = True

    def stop(self):
        self.live = False

    def normals(self, shape):
        z = self.rng.standard_normal(shape)
        return z

    def uniforms(self, shape):
        return self.rng.random(shape)

    def log_n(self, z):
        self.n.extend(np.asarray(z, dtype=float).ravel().tolist())

    def log_u(self, u):
        self.u.extend(np.asarray(u, dtype=float).ravel().tolist())


tap = Tap()
_NP_GEN = np.random.Generator(np.random.PCG64(0))   # made before patching


def _shape(size, *params):
    if size is None:
        return np.broadcast(*[np.asarray(p) for p in params]).shape if params else ()
    if np.ndim(size) == 0:
        return (int(size),)
    return tuple(int(s) for s in size)


def _ret(a):
    return float(a) if np.ndim(a) == 0 else a


def n_normal(loc=0.0, scale=1.0, size=None):
    z = tap.normals(_shape(size, loc, scale))
    tap.log_n(z)
    return _ret(np.asarray(loc) + np.asarray(scale) * z)


def n_standard_normal(size=None, dtype=None, out=None):
    z = tap.normals(_shape(size))
    tap.log_n(z)
    if out is not None:
        out[...] = z
        return out
    return _ret(z)


def n_uniform(low=0.0, high=1.0, size=None):
    u = tap.uniforms(_shape(size, low, high))
    tap.log_u(u)
    low = np.asarray(low, dtype=float)
    return _ret(low + (np.asarray(high, dtype=float) - low) * u)


def n_random(size=None, dtype=None, out=None):
    u = tap.uniforms(_shape(size))
    tap.log_u(u)
    if out is not None:
        out[...] = u
        return out
    return _ret(u)


def n_randn(*shape):
    return n_standard_normal(shape if shape else None)


def n_rand(*shape):
    return n_random(shape if shape else None)


class FakeGen:
    """stands in for numpy Generator / RandomState objects made by the code"""
    def __init__(self, *a, **k):
        self._real = None

    normal = staticmethod(n_normal)
    standard_normal = staticmethod(n_standard_normal)
    uniform = staticmethod(n_uniform)
    random = staticmethod(n_random)
    random_sample = staticmethod(n_random)
    randn = staticmethod(n_randn)
    rand = staticmethod(n_rand)

    def __getattr__(self, name):
        return getattr(_NP_GEN, name)


def install():
    R = np.random

    def switch(name, new):
        old = getattr(R, name)

        def f(*a, **k):
            return new(*a, **k) if tap.live else old(*a, **k)
        f.__name__ = name
        setattr(R, name, f)
    switch('normal', n_normal)
    switch('standard_normal', n_standard_normal)
    switch('randn', n_randn)
    switch('uniform', n_uniform)
    for nm in ('random', 'random_sample', 'ranf', 'sample'):
        switch(nm, n_random)
    switch('rand', n_rand)
    old_rng, old_rs = R.default_rng, R.RandomState
    R.default_rng = lambda *a, **k: FakeGen() if tap.live else old_rng(*a, **k)

    class RS(old_rs):
        def __new__(cls, *a, **k):
            return FakeGen() if tap.live else old_rs(*a, **k)
    R.RandomState = RS
    try:
        import torch
    except ImportError:
        return
    install_torch(torch)


def install_torch(torch):
    def log_back(t, mean, std, uni):
        """log the unit draw that the (rounded) tensor really holds"""
        v = (t.detach().double().numpy() - mean) / std
        (tap.log_u if uni else tap.log_n)(v)

    def flt(x):
        return x.detach().double().numpy() if torch.is_tensor(x) else x

    def fill(t, a, b, uni):
        """t becomes a + b * draw, in place"""
        d = tap.uniforms(tuple(t.shape)) if uni else tap.normals(tuple(t.shape))
        val = np.asarray(a) + np.asarray(b) * d
        with torch.no_grad():
            t.copy_(torch.tensor(np.broadcast_to(val, tuple(t.shape)).copy(), dtype=t.dtype))
        bb = np.where(np.asarray(b) == 0, 1.0, b)
        log_back(t, np.asarray(a), bb, uni)
        return t

    T = torch.Tensor
    o_normal_, o_uniform_ = T.normal_, T.uniform_

    def normal_(self, mean=0.0, std=1.0, generator=None):
        if not tap.live:
            return o_normal_(self, mean, std, generator=generator)
        return fill(self, flt(mean), flt(std), False)

    def uniform_(self, *a, **k):
        if not tap.live:
            return o_uniform_(self, *a, **k)
        lo = a[0] if a else k.get('from', 0.0)
        hi = a[1] if len(a) > 1 else k.get('to', 1.0)
        lo, hi = flt(lo), flt(hi)
        return fill(self, lo, np.asarray(hi) - np.asarray(lo), True)
    T.normal_, T.uniform_ = normal_, uniform_

    def size_of(a):
        if len(a) == 1 and not isinstance(a[0], int) and np.ndim(a[0]) >= 1:
            a = a[0]
        if len(a) == 1 and isinstance(a[0], (list, tuple, torch.Size)):
            a = a[0]
        return [int(s) for s in a]

    def like(uni, old):
        def f(*a, **k):
            if not tap.live:
                return old(*a, **k)
            if 'size' in k:
                a = (k.pop('size'),)
            kw = {q: k[q] for q in ('dtype', 'device') if q in k}
            t = torch.empty(size_of(a), **kw)
            return fill(t, 0.0, 1.0, uni)
        return f

    def like2(uni, old):
        def f(x, **k):
            if not tap.live:
                return old(x, **k)
            kw = {q: k[q] for q in ('dtype', 'device') if q in k}
            return fill(torch.empty_like(x, **kw), 0.0, 1.0, uni)
        return f
    torch.rand, torch.randn = like(True, torch.rand), like(False, torch.randn)
    torch.rand_like, torch.randn_like = like2(True, torch.rand_like), like2(False, torch.randn_like)
    o_tn = torch.normal

    def tnormal(mean, std=1.0, size=None, **k):
        if not tap.live:
            return o_tn(mean, std, **k) if size is None else o_tn(mean, std, size, **k)
        if size is None:
            shape = np.broadcast(np.asarray(flt(mean)), np.asarray(flt(std))).shape
            dt = mean.dtype if torch.is_tensor(mean) else (std.dtype if torch.is_tensor(std) else None)
        else:
            shape, dt = [int(s) for s in size], k.get('dtype')
        return fill(torch.empty(list(shape), dtype=dt), flt(mean), flt(std), False)
    torch.normal = tnormal
