"""Problems with many classes, examples, bins, features: the enumerated domains of the other families are small, these are
deterministic problems of every size in a product of sizes, judged by the same kind of reference (in floating point)."""
import math

import numpy as np

from mc import refs

KS = (2, 3, 6, 9, 12)


def labels(k, kind):
    """sorted labels of four types"""
    if kind == 0:
        return tuple(range(-(k // 2), k - k // 2))
    if kind == 1:
        return tuple(sorted(str(7 * i + 5) for i in range(k)))
    if kind == 2:
        return tuple(300 * i * i + i for i in range(k))
    return tuple('class %s%02d' % ('x' * (i % 3), i) for i in sorted(range(k), key=lambda i: 'class %s%02d' % ('x' * (i % 3), i)))


class Gen:
    """a fixed stream of integers (the same in every run and version of the libraries)"""

    def __init__(self, seed):
        self.s = (seed * 2654435761 + 12345) % 2 ** 31

    def __call__(self, n):
        self.s = (self.s * 1103515245 + 12345) % 2 ** 31
        return (self.s >> 8) % n

    def shuffle(self, v):
        v = list(v)
        for i in range(len(v) - 1, 0, -1):
            j = self(i + 1)
            v[i], v[j] = v[j], v[i]
        return v


def sizes(k, n, g):
    """examples of each class: at least 2, very different"""
    w = [1 + g(9) for _ in range(k)]
    return [max(2, n * a // sum(w)) for a in w]


def prob_rows(c, n, k, d, g, strength=2):
    """probabilities multiple of 1/d of n examples of class c"""
    res = []
    for _ in range(n):
        r = [0] * k
        left = d
        top = c if g(4) else g(k)
        a = min(left, d * (1 + g(strength + 1)) // (strength + 2))
        r[top] += a
        left -= a
        while left:
            a = 1 + g(left)
            r[g(k)] += a
            left -= a
        res.append(r)
    return np.array(res, dtype=float) / d


def problem(k, n, seed, d=64, reps=1):
    """training labels (indices), probabilities, in a mixed order; with other predictions of the same examples when reps > 1"""
    g = Gen(seed * 101 + k * 7 + n)
    y, P = [], []
    for c, s in enumerate(sizes(k, n, g)):
        y += [c] * s
        P.append(prob_rows(c, s, k, d, g))
    o = g.shuffle(range(len(y)))
    y, P = np.array(y)[o], [np.vstack(P)[o]]
    for _ in range(reps - 1):
        P.append(np.vstack([prob_rows(c, 1, k, d, g) for c in y]))
    return np.tile(y, reps), np.vstack(P)


def bag(k, n, seed, d=64):
    g = Gen(seed * 977 + k * 13 + n)
    w = [g(5) for _ in range(k)]
    w[g(k)] += 3
    cs = [c for c in range(k) for _ in range(w[c])]
    return np.vstack([prob_rows(cs[g(len(cs))], 1, k, d, g) for _ in range(n)])


def points(c, n, nf, g):
    return [[float(g(17) + 3 * ((c * (f + 1)) % 5) - 4 * (f % 3)) for f in range(nf)] for _ in range(n)]


def features(k, n, nf, seed):
    g = Gen(seed * 31 + k * 17 + n + nf)
    y, X = [], []
    for c, s in enumerate(sizes(k, n, g)):
        y += [c] * s
        X += points(c, s, nf, g)
    o = g.shuffle(range(len(y)))
    return np.array(y)[o], np.array(X)[o]


def feature_bag(k, n, nf, seed):
    g = Gen(seed * 53 + k + n * 3 + nf)
    return np.array([points(g(k), 1, nf, g)[0] for _ in range(n)])


# ---- solvers -------------------------------------------------------------------------------------------------------
def hd_simplex(A, t, it=4000):
    """minimum of the Hellinger distance between A p and t over the simplex (multiplicative updates)"""
    A, t = np.asarray(A, float), np.ravel(t).astype(float)
    keep = t > 0
    B, s = A[keep], t[keep]
    p = np.full(A.shape[1], 1.0 / A.shape[1])
    best = math.inf
    for i in range(it):
        m = B.dot(p)
        q = p * (B * np.sqrt(s / np.maximum(m, 1e-300))[:, None]).sum(axis=0) ** 2
        if i % 50 == 0:
            best = min(best, refs.d_hd(A.dot(p), t))
        if q.sum() == 0:
            break
        p = q / q.sum()
    return min(best, refs.d_hd(A.dot(p), t))


def hd_any_mass(A, t):
    """Hellinger distance of a good mixture when the mixtures have different masses"""
    from scipy.optimize import minimize
    A, t = np.asarray(A, float), np.ravel(t).astype(float)
    k = A.shape[1]
    keep = t > 0
    B, s, c = A[keep], np.sqrt(t[keep]), A.sum(axis=0) / 2
    f = lambda p: c.dot(p) - s.dot(np.sqrt(np.maximum(B.dot(p), 1e-14)))
    g = lambda p: c - B.T.dot(s / np.sqrt(np.maximum(B.dot(p), 1e-14))) / 2
    res = math.inf
    for st in [np.full(k, 1.0 / k)] + [np.full(k, 0.1 / k) + 0.9 * np.eye(k)[i] for i in range(k)]:
        r = np.maximum(minimize(f, st, jac=g, method='SLSQP', bounds=[(0, 1)] * k, options=dict(maxiter=300, ftol=1e-12),
                                constraints=[dict(type='eq', fun=lambda p: p.sum() - 1, jac=lambda p: np.ones(k))]).x, 0)
        if r.sum() > 0:
            res = min(res, refs.d_hd(A.dot(r / r.sum()), t))
    return res


def best(dist, A, t):
    if dist == 'HD' and np.ptp(np.sum(A, axis=0)) > 1e-9:
        return hd_any_mass(A, t)
    if dist == 'HD' and np.shape(A)[1] > 2:
        return hd_simplex(A, t)
    if dist == 'L2' and np.shape(A)[1] > 8:
        # non-negative least squares with a heavy row for the sum: a feasible point (nearly) as good as any
        from scipy.optimize import nnls
        B = np.vstack([A, np.full(A.shape[1], 1e3)])
        p = nnls(B, np.append(t, 1e3), maxiter=5000)[0]
        return refs.d_l2(A.dot(p / p.sum()), t)
    return refs.optimum(dist, A, t)


def judge(ob, p, A, t, dist, what):
    A, t = np.asarray(A, float), np.ravel(t).astype(float)
    k = A.shape[1]
    if dist in refs.CALLABLES:
        return refs.judge_match(ob, p, A, t, dist, what)
    ob.distribution(p, k, what, 1e-5)
    p = np.clip(np.asarray(p, float), 0, 1)
    got, b = refs.DIST[dist](A.dot(p), t), best(dist, A, t)
    ok = got ** 2 / 2 <= b ** 2 / 2 + 4e-5 * (max(1.0, float(t.sum())) + len(t) / 10) if dist == 'HD' else got <= b + 3e-5
    ob.expect(ok, '%s: prevalences %s have %s distance %.6f but %.6f is possible', what, np.round(p, 4).tolist(), dist, got, b)


def quadratic_gap(K, Kt, p):
    """upper bound of how far p is from the minimum of 2 p.Kt - p.K.p over the simplex (convex there)"""
    grad = 2 * Kt - 2 * K.dot(p)
    return float(grad.dot(p) - grad.min())
