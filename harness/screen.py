"""Untrusted helper: chooses, among all columns and queries of a large recorded
execution, those worth comparing in TLA+.  Every column is computed in doubles
and the ones that fit worst are handed to spec/TraceFlow.tla (next to a random
sample).  Nothing here decides a verdict."""
import numpy as np
from replica import poly, blk, dist

DT = 0.001
INF = float('inf')


def _score(X, S, l, Q):
    """X: N x dim, S: M x dim, Q: K x dim -> value and sum of magnitudes, K x dim"""
    def K(a, b):
        return np.exp(-0.5 * (((a[:, None, :] - b[None, :, :]) / l) ** 2).sum(2))
    Kx, Ks = K(X, S), K(S, S)
    H = 0.002 * (Ks + 1e-3 * np.eye(len(S))) + Kx.T @ Kx
    s = np.stack([(-(X[:, None, d] - S[None, :, d]) / l[d] ** 2 * Kx).sum(0) for d in range(X.shape[1])], 1)
    w = np.linalg.solve(H, s)
    KQ = K(Q, S)
    return -KQ @ w, KQ @ (abs(w) + abs(w).max(0))


class Screen:
    def __init__(self, s, Z, B, T, nflat, uflat, plan):
        self.s, self.F = s, dict(Z=Z, B=B, T=T)
        self.n, self.u, self.plan = np.asarray(nflat), np.asarray(uflat), plan
        self.dim, self.N, self.M = s['dim'], s['N'], s['M']
        self.g = np.asarray(s['g'])[:, None]
        self.st = 1e-8 if s['be'] == 'np' else 1e-6

    def nb(self, b):
        z = self.dim * self.N
        x = self.n[b * z:(b + 1) * z]
        return x if len(x) == z else None

    def ub(self, b, flat=None):
        z = self.dim * self.M
        x = (self.u if flat is None else flat)[b * z:(b + 1) * z]
        return x if len(x) == z else None

    def box(self, flows, i):
        A = [self.F[f][:, :, i] for f in flows]
        lo, hi = [a.min(1) for a in A], [a.max(1) for a in A]
        if len(A) == 1:
            return lo[0], hi[0]
        if self.s['be'] == 'np':
            return np.maximum(*lo), np.minimum(*hi)
        flat = lo[1] == hi[1]
        return np.where(flat, lo[0], np.minimum(*lo)), np.where(flat, hi[0], np.maximum(*hi))

    def grad(self, data, at, flows, ub, lay):
        X = self.F[data[0]][:, :, data[1]]
        lo, hi = self.box(flows, data[1])
        S = (lo[:, None] + (hi - lo)[:, None] * blk(ub, self.dim, self.M, lay)).T
        l = 2 * X.std(1, ddof=0 if self.s['be'] == 'np' else 1)
        v, m = _score(X.T, S, l, at)
        return v.T, m.T

    def misfit(self, f, i):
        """smallest ratio of deviation to tolerance over the ways the draws may have been used"""
        s, k = self.s, self.s['k']
        col = self.F[f][:, :, i]
        if (f, i) not in self.plan:
            pin = np.asarray(s['y2'] if f == 'B' and i == k - 1 else s['y1'])[:, None]
            return 0.0 if (col == pin).all() else INF
        b, us = self.plan[(f, i)]
        j = i + 1 if f == 'B' else i - 1
        base = self.F[f][:, :, j]
        t = s['t1'] + j * DT
        fv = np.stack([poly(p, base, t) for p in s['ftrue' if f == 'T' else 'f']])
        sign = -1 if f == 'B' else 1
        specs = []
        if f == 'B':
            specs.append((('Z', j), 2))
            if len(us) == 2:
                specs.append((('B', j), -1))
        elif us:
            specs.append(((f, j), -1))
        flows = ('Z', 'B') if f == 'B' else (f,)
        nblk = self.nb(b) if b is not None else None
        if b is not None and nblk is None:
            return INF
        best = INF
        for nl in (('dim', 'pt') if b is not None else ('',)):
            noise = self.g * np.sqrt(DT) * blk(nblk, self.dim, self.N, nl) if b is not None else 0.0
            for ul in ('dim', 'pt') if us else ('',):
                for order in (us, us[::-1]) if len(us) == 2 else (us,):
                    vel, mag = sign * fv, np.zeros_like(fv)
                    for (data, h), u in zip(specs, order):
                        ub = self.ub(u)
                        if ub is None:
                            return INF
                        v, m = self.grad(data, base.T, flows, ub, ul)
                        vel = vel + h / 2 * self.g ** 2 * v
                        mag = mag + abs(h) / 2 * self.g ** 2 * m
                    p = base + DT * vel + noise
                    tol = 1e-12 * (1 + abs(base)) + DT * (1e-9 * abs(fv) + self.st * mag) + 1e-6 * abs(noise)
                    r = self.weighed(p, col, i) if f == 'Z' and s['rw'] else (abs(p - col) / tol).max()
                    best = min(best, r)
                    if best < 1e-3:
                        return best
        return best

    def weighed(self, p, col, i):
        import ot
        a = poly(self.s['U'], p, self.s['t1'] + i * DT) * DT
        w = np.exp(a - a.max())
        w /= w.sum()
        C = dist(p.T, self.s['be'])
        P = ot.emd(w, np.ones(self.N) / self.N, C / (C.max() or 1.0), numItermax=10 ** 6)
        sp = max((p.max(1) - p.min(1)).max(), 1e-300)
        return abs(self.N * p @ P - col).max() / (1e-7 * sp + 1e-11 * (1 + abs(p).max()))

    def cells(self, flows, count):
        """the count cells of the flows that fit worst"""
        out = []
        for f in flows:
            if self.F[f] is None:
                continue
            for i in range(self.s['k']):
                try:
                    r = self.misfit(f, i)
                except Exception:
                    r = INF
                out.append((-(INF if r != r else r), f, i))
        out.sort(key=lambda x: x[0])
        return [(f, i) for _, f, i in out[:count]]

    def control(self, i, pts, res, draws):
        ref = 'T' if self.s['rw'] and self.s['bb'] else 'Z'
        A, B = self.F[ref][:, :, i], self.F['B'][:, :, i]
        if res.shape != (self.dim, len(pts)):
            return INF
        if i <= 5 or i >= self.s['k'] - 5:
            dd = 0 if self.s['be'] == 'np' else 1
            a = (pts - A.mean(1)) / A.var(1, ddof=dd)
            b = (pts - B.mean(1)) / B.var(1, ddof=dd)
            return (abs((a - b).T - res) / (1e-8 * (abs(a) + abs(b)).T + 1e-300)).max()
        ub = self.ub(0, np.asarray(draws))
        if ub is None:
            return INF
        best = INF
        for lay in ('dim', 'pt'):
            vb, mb = self.grad(('B', i), pts, (ref, 'B'), ub, lay)
            vf, mf = self.grad((ref, i), pts, (ref, 'B'), ub, lay)
            best = min(best, (abs(vb - vf - res) / (1e-12 + self.st * (mb + mf))).max())
        return best

    def cover(self, i, x, ans):
        want = all((self.F[f][:, :, i].min(1) <= x).all() and (x <= self.F[f][:, :, i].max(1)).all() for f in 'ZB')
        return 0.0 if want == ans else INF
