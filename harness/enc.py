"""Encoding of doubles as the fixed-point numbers of spec/Fix.tla (n / 10^24,
sign and base-10^4 limbs); NaN and infinities as the markers of the same module."""
import math

SCALE = 10 ** 24


def limbs(v):
    if v == 0:
        return [0]
    out = [1 if v > 0 else -1]
    v = abs(v)
    while v:
        v, r = divmod(v, 10000)
        out.append(r)
    return out


def num(x):
    x = float(x)
    if math.isnan(x):
        return [2]
    if math.isinf(x):
        return [3] if x > 0 else [-3]
    n, d = x.as_integer_ratio()
    s = -1 if n < 0 else 1
    return limbs(s * ((abs(n) * SCALE * 2 // d + 1) // 2))


def arr(a):
    """nested lists of numbers from any array"""
    if hasattr(a, 'ndim'):
        a = a.tolist()
    if isinstance(a, (list, tuple)):
        return [arr(b) for b in a]
    return num(a)


def dec(v):
    """inverse of num, for messages"""
    if v[0] not in (-1, 0, 1):
        return {2: float('nan'), 3: float('inf'), -3: float('-inf')}[v[0]]
    r = 0
    for l in reversed(v[1:]):
        r = r * 10000 + l
    return v[0] * (r / SCALE)
