"""Reference models, written from the documentation/papers in the plainest way. No code of /repo is used here."""
import itertools
import math
from fractions import Fraction as F

import numpy as np
from mc.domains import compositions


# ---- distances between (mixture) vectors ------------------------------------------------------------------------------
def d_l1(m, t):
    return float(np.abs(np.asarray(m) - np.asarray(t)).sum())


def d_l2(m, t):
    return float(np.sqrt(((np.asarray(m) - np.asarray(t)) ** 2).sum()))


def d_hd(m, t):
    return float(np.sqrt(((np.sqrt(np.maximum(m, 0)) - np.sqrt(np.maximum(t, 0))) ** 2).sum()))


def d_topsoe(m, t):
    s = 0.0
    for p, q in zip(np.ravel(m), np.ravel(t)):
        if p > 0:
            s += p * math.log(2 * p / (p + q))
        if q > 0:
            s += q * math.log(2 * q / (p + q))
    return s


DIST = {'L1': d_l1, 'L2': d_l2, 'HD': d_hd}

_GRID = {}


def grid(k, d):
    if (k, d) not in _GRID:
        _GRID[(k, d)] = np.array(list(compositions(d, k)), dtype=float) / d
    return _GRID[(k, d)]


def best_on_simplex(f, k, d0=20, levels=6):
    """min of a convex function over the simplex: brute force on a grid, then exhaustive refinement around the best
    point with finer and finer grids. Returns (value, point). The value is an upper bound of the minimum."""
    G = grid(k, d0)
    vals = [f(p) for p in G]
    i = int(np.argmin(vals))
    best, bv = G[i], vals[i]
    step = 1.0 / d0
    dirs = [np.eye(k)[i] - np.eye(k)[j] for i, j in itertools.permutations(range(k), 2)]
    if k > 2:   # combined moves
        dirs += [(np.eye(k)[i] + np.eye(k)[j]) / 2 - np.eye(k)[h] for i, j, h in itertools.permutations(range(k), 3)]
        dirs += [np.eye(k)[h] - (np.eye(k)[i] + np.eye(k)[j]) / 2 for i, j, h in itertools.permutations(range(k), 3)]
    for _ in range(levels * 4):
        moved = True
        it = 0
        while moved and it < 50:
            moved = False
            it += 1
            for dv in dirs:
                q = best + step * dv
                if q.min() < 0:
                    q = np.maximum(q, 0)
                    q = q / q.sum()
                v = f(q)
                if v < bv - 1e-15:
                    best, bv, moved = q, v, True
        step /= 2
    return bv, best


def qp_simplex(A, t):
    """exact minimiser value of |A p - t|_2 over the simplex, enumerating every support (active set enumeration)"""
    A = np.asarray(A, dtype=float)
    t = np.asarray(t, dtype=float).ravel()
    k = A.shape[1]
    best, bp = np.inf, None
    for r in range(1, k + 1):
        for S in itertools.combinations(range(k), r):
            B = A[:, S]
            # min |B q - t| with sum q = 1: KKT system solved with least squares (singular systems: any solution)
            M = np.zeros((r + 1, r + 1))
            M[:r, :r] = B.T.dot(B)
            M[:r, r] = M[r, :r] = 1
            q = np.linalg.lstsq(M, np.append(B.T.dot(t), 1), rcond=1e-12)[0][:r]
            if q.min() >= -1e-10 and abs(q.sum() - 1) < 1e-8:
                p = np.zeros(k)
                p[list(S)] = np.maximum(q, 0)
                p /= p.sum()
                v = np.sqrt(((A.dot(p) - t) ** 2).sum())
                if v < best:
                    best, bp = v, p
    return best, bp


def l1_simplex(A, t):
    """exact minimum of |A p - t|_1 over the simplex: linear programme solved with an independent solver (HiGHS)"""
    from scipy.optimize import linprog
    A = np.asarray(A, dtype=float)
    t = np.asarray(t, dtype=float).ravel()
    n, k = A.shape
    c = np.concatenate([np.zeros(k), np.ones(n)])
    ub = np.block([[A, -np.eye(n)], [-A, -np.eye(n)]])
    r = linprog(c, A_ub=ub, b_ub=np.concatenate([t, -t]), A_eq=[np.concatenate([np.ones(k), np.zeros(n)])], b_eq=[1],
                bounds=[(0, None)] * (k + n), method='highs')
    return float(r.fun), r.x[:k]


def optimum(dist, A, t):
    A = np.asarray(A, dtype=float)
    t = np.asarray(t, dtype=float).ravel()
    if dist == 'L2':
        return qp_simplex(A, t)[0]
    if dist == 'L1':
        return l1_simplex(A, t)[0]
    if dist == 'HD':
        k = A.shape[1]
        return best_on_simplex(lambda p: d_hd(A.dot(p), t), k, d0=40 if k == 2 else 12 if k == 3 else 6)[0]
    raise ValueError(dist)


def histogram(values, inner):
    """counts of the bins delimited by the inner cut points; a value equal to a cut point belongs to the upper bin"""
    inner = list(inner)
    c = [0] * (len(inner) + 1)
    for v in values:
        b = 0
        while b < len(inner) and v >= inner[b]:
            b += 1
        c[b] += 1
    return c


# ---- crisp conversion -------------------------------------------------------------------------------------------------
def crisp(preds, classes):
    """documented conversion: probability matrix -> argmax class, binary probability vector -> p>=0.5 is the second class"""
    preds = np.asarray(preds)
    if preds.ndim == 2 and preds.shape[1] > 1:
        return [classes[int(np.argmax(r))] for r in preds]
    v = preds.reshape(-1)
    if np.issubdtype(v.dtype, np.floating):
        return [classes[1] if p >= 0.5 else classes[0] for p in v]
    return list(v)


# objective gaps accepted from the numerical solvers of the library (measured, see DESIGN.md)
GAP = {'L1': 1e-5, 'L2': 1e-5, 'HD': 4e-5}


def near_optimal(dist, got, best, mass=1.0):
    """got and best are distances; the Hellinger solver minimises half the squared distance"""
    if dist == 'HD':
        return got ** 2 / 2 <= best ** 2 / 2 + GAP['HD'] * max(1.0, mass)
    return got <= best + GAP[dist]


# ---- bins ---------------------------------------------------------------------------------------------------------
def ppf(q):
    """quantile of the standard normal by bisection of erf"""
    lo, hi = -40.0, 40.0
    for _ in range(200):
        m = (lo + hi) / 2
        if 0.5 * (1 + math.erf(m / math.sqrt(2))) < q:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def inner_cuts(x, y, classes, n_bins, strategy, rng=None):
    """inner cut points (the first bin starts at -inf, the last one ends at +inf)"""
    x = [float(v) for v in x]
    n = len(x)
    if strategy == 'equal_width':
        lo, hi = rng if rng is not None else (min(x), max(x))
        if lo == hi:
            lo, hi = lo - 0.5, hi + 0.5
        return [lo + (hi - lo) * i / n_bins for i in range(1, n_bins)]
    if strategy == 'equal_count':
        s = sorted(x)
        res = []
        for i in range(1, n_bins):
            c = int(round(n * i / n_bins))
            res.append((s[max(c - 1, 0)] + s[min(c, n - 1)]) / 2)
        return res
    if strategy == 'normal':
        w = [1.0 / sum(1 for v in y if v == c) for c in y]
        mu = sum(a * b for a, b in zip(w, x)) / sum(w)
        sd = math.sqrt(sum(a * (b - mu) ** 2 for a, b in zip(w, x)) / sum(w))
    elif strategy == 'binormal':
        mus, sds = [], []
        for c in classes:
            g = [v for v, l in zip(x, y) if l == c]
            m = sum(g) / len(g)
            mus.append(m)
            sds.append(math.sqrt(sum((v - m) ** 2 for v in g) / len(g)))
        mu, sd = sum(mus) / len(mus), sum(sds) / len(sds)
    else:
        raise ValueError(strategy)
    if sd < 1e-12:
        return None      # constant feature: any bins that cover the real line will do
    return [mu + sd * ppf(i / n_bins) for i in range(1, n_bins)]


def represent(values, cuts, cdf=False):
    """fraction of the values in each bin (or accumulated)"""
    h = np.array(histogram(values, cuts), dtype=float) / len(values)
    return np.cumsum(h) if cdf else h


def margin(values, cuts):
    """smallest distance between a value and a cut point"""
    return min([abs(v - c) for v in values for c in cuts] or [1.0])


CALLABLES = {'hd': d_hd, 'l1': d_l1, 'l2': d_l2, 'topsoe': d_topsoe}


NEAR = [0, 5e-5, -5e-5, 2e-4, -2e-4] + [s * i * 1e-6 for i in range(1, 13) for s in (1, -1)]


def judge_match(ob, p, A, t, dist, what, tol=1e-5):
    """p has to be a distribution that minimises the distance between the mixture A p and t"""
    A = np.asarray(A, dtype=float)
    t = np.asarray(t, dtype=float).ravel()
    k = A.shape[1]
    ob.distribution(p, k, what, tol)
    p = np.clip(np.asarray(p, dtype=float), 0, 1)
    if dist in CALLABLES:
        f = CALLABLES[dist]
        loss = lambda a: f(A.dot(np.array([1 - a, a])), t)
        best, _ = best_binary(loss)
        near = [min(max(p[1] + e, 0.0), 1.0) for e in NEAR]
        got = min(loss(a) for a in near)
        ob.expect(got <= best + 3e-6, '%s: prevalence %.6f has %s distance %.7f but %.7f is possible', what, p[1], dist,
                  loss(p[1]), best)
    else:
        best = optimum(dist, A, t)
        got = DIST[dist](A.dot(p), t)
        ob.expect(near_optimal(dist, got, best, max(float(t.sum()), 1.0) + len(t) / 10), '%s: prevalences %s have %s distance %.6f but %.6f is possible', what,
                  np.round(p, 6).tolist(), dist, got, best)


def flat(A, t, dist):
    """the distance does not depend on the prevalence: a search has nothing to find"""
    v = [CALLABLES[dist](A.dot(np.array([1 - a, a])), t) for a in np.linspace(0, 1, 101)]
    return max(v) - min(v) < 1e-9


def best_binary(loss, n=400):
    xs = [i / n for i in range(n + 1)]
    v = [loss(x) for x in xs]
    b, bx = min(zip(v, xs))
    for i in range(n + 1):
        lo, hi = xs[max(i - 1, 0)], xs[min(i + 1, n)]
        if v[i] <= v[max(i - 1, 0)] and v[i] <= v[min(i + 1, n)] and v[i] < b + 0.02:
            for _ in range(40):
                a1, a2 = lo + (hi - lo) / 3, hi - (hi - lo) / 3
                if loss(a1) <= loss(a2):
                    hi = a2
                else:
                    lo = a1
            for a in (lo, hi, (lo + hi) / 2):
                if loss(a) < b:
                    b, bx = loss(a), a
    return b, bx
