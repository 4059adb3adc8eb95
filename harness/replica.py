"""Untrusted helper: finds transport witnesses (plan and dual potentials) for the
reweighting steps.  Whatever it returns is checked by spec/Transport.tla, and
nothing here decides a verdict."""
import numpy as np
from scipy import sparse
from scipy.optimize import linprog


def poly(p, x, t):
    """x: dim x N"""
    out = np.zeros(x.shape[1])
    for m in p:
        v = np.full(x.shape[1], m['c'] * (t ** m['p'] if m['p'] else 1.0))
        for d, e in enumerate(m['e']):
            if e:
                v = v * x[d] ** e
        out = out + v
    return out


def score(X, S, l, Q):
    def K(a, b):
        return np.exp(-0.5 * (((a[:, None, :] - b[None, :, :]) / l) ** 2).sum(2))
    Kx, Ks = K(X, S), K(S, S)
    H = 0.002 * (Ks + 1e-3 * np.eye(len(S))) + Kx.T @ Kx
    s = np.stack([(-(X[:, None, d] - S[None, :, d]) / l[d] ** 2 * Kx).sum(0) for d in range(X.shape[1])], 1)
    return -K(Q, S) @ np.linalg.solve(H, s)


def dist(X, be):
    d = X[:, None, :] - X[None, :, :]
    c = (d ** 2).sum(2)
    return np.sqrt(c) if be == 'np' else c


def ot_lp(C, w, X=None, Y=None, tol=None):
    """minimal-cost plan; with Y the plan has to map X to Y"""
    n = len(w)
    one, eye = np.ones((1, n)), sparse.identity(n)
    Ae = sparse.vstack([sparse.kron(eye, one), sparse.kron(one, eye)]).tocsr()
    be = np.r_[w, np.ones(n) / n]
    sc = C.max() or 1.0
    kw = {}
    if Y is not None:
        dim = X.shape[1]
        # rows d * n + j: n sum_i X[i, d] P[i, j]
        Au = sparse.vstack([sparse.kron(n * X[:, d].reshape(1, n), eye) for d in range(dim)]).tocsr()
        y = Y.T.reshape(-1)
        kw = dict(A_ub=sparse.vstack([Au, -Au]).tocsr(), b_ub=np.r_[y + tol, -y + tol])
    r = linprog((C / sc).ravel(), A_eq=Ae, b_eq=be, bounds=(0, None), method='highs',
                options=dict(primal_feasibility_tolerance=1e-10, dual_feasibility_tolerance=1e-10), **kw)
    if r.x is None:
        return None
    P = r.x.reshape(n, n)
    return P, r.eqlin.marginals[:n] * sc, r.eqlin.marginals[n:] * sc


def clean(P, w):
    """tiny entries away, exact row sums as far as doubles go"""
    P = np.where(P < 1e-13, 0.0, P)
    return P


def ot_exact(C, w):
    try:
        import ot
        P, log = ot.emd(w, np.ones(len(w)) / len(w), C / (C.max() or 1.0), log=True, numItermax=10 ** 6)
        s = C.max() or 1.0
        return P, log['u'] * s, log['v'] * s
    except Exception:
        return ot_lp(C, w)


def fix_duals(C, u, v):
    """make the potentials feasible without lowering the bound more than rounding"""
    u = np.min(C - v[None, :], axis=1)
    v = np.min(C - u[:, None], axis=0)
    return u, v


def witness(pre, post, U, t, be):
    """pre, post: dim x N"""
    a = poly(U, pre, t) * 0.001
    w = np.exp(a - a.max())
    w /= w.sum()
    X, Y = pre.T, post.T
    C = dist(X, be)
    P, u, v = ot_exact(C, w)
    u, v = fix_duals(C, u, v)
    tol = 2e-8 * max((X.max(0) - X.min(0)).max(), 1e-300) + 1e-12 * (1 + abs(X).max())
    if abs(len(w) * P.T @ X - Y).max() > tol and len(w) <= 130:
        m, sp = X.mean(0), max((X.max(0) - X.min(0)).max(), 1e-300)
        alt = None
        for e in (1e-10, 1e-9, 1e-8, 3e-8):
            alt = ot_lp(C, w, (X - m) / sp, (Y - m) / sp, e)
            if alt is not None:
                break
        if alt is not None:
            P2 = clean(alt[0], w)
            if (P2 * C).sum() <= (P * C).sum() + 1e-8 * (C.max() or 1.0):
                P = P2
    P = clean(P, w)
    err = abs(len(w) * P.T @ X - Y).max()
    return P, u, v, err


def wit_json(P, u, v, arr):
    I, J = np.nonzero(P)
    from enc import num
    return dict(plan=[dict(i=int(i) + 1, j=int(j) + 1, v=num(P[i, j])) for i, j in zip(I, J)],
                u=arr(u), v=arr(v))


def blk(b, dim, n, lay):
    b = np.asarray(b)
    return b.reshape(dim, n) if lay == 'dim' else b.reshape(n, dim).T


def predictions(tr, i, nblock, ublock):
    """candidate propagated columns Z[i] before reweighting"""
    Zp = tr['Z'][:, :, i - 1]
    dim, N = Zp.shape
    t = tr['t1'] + (i - 1) * 0.001
    f = np.stack([poly(p, Zp, t) for p in tr['f']])
    g = np.asarray(tr['g'])[:, None]
    out = []
    if nblock is not None:
        for lay in ('dim', 'pt'):
            out.append(Zp + 0.001 * f + g * np.sqrt(0.001) * blk(nblock, dim, N, lay))
    else:
        lo, hi = Zp.min(1), Zp.max(1)
        l = 2 * Zp.std(1, ddof=0 if tr['be'] == 'np' else 1)
        for lay in (('dim', 'pt') if tr['be'] == 'np' else ('pt', 'dim')):
            u = blk(ublock, dim, tr['M'], lay)
            S = (lo[:, None] + (hi - lo)[:, None] * u).T
            out.append(Zp + 0.001 * (f - 0.5 * g ** 2 * score(Zp.T, S, l, Zp.T).T))
    return out
