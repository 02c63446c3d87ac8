"""C11 energy distance and Cramer-von Mises quantifiers (EDy, EDX, CvMy)."""
import itertools

import numpy as np
from sklearn.metrics.pairwise import euclidean_distances, manhattan_distances
from quantificationlib.multiclass.energy import EDX, EDy, CvMy

from mc import domains as D, large, refs
from mc.core import Family

ASSUMPTIONS = ['objective gap accepted from the quadratic solver: 1e-6 of the scale of the distances']


def l1(a, b):
    return float(np.abs(np.asarray(a) - np.asarray(b)).sum())


def l2(a, b):
    return float(np.sqrt(((np.asarray(a) - np.asarray(b)) ** 2).sum()))


DISTS = {'manhattan': (manhattan_distances, l1), 'euclidean': (euclidean_distances, l2),
         'halved': (lambda A, B: manhattan_distances(A, B) / 2, lambda a, b: l1(a, b) / 2)}


def energy(groups, bag, d):
    """p -> energy distance between the mixture of the groups and the bag (up to a constant)"""
    k = len(groups)
    K = np.array([[np.mean([d(a, b) for a in gi for b in gj]) for gj in groups] for gi in groups])
    Kt = np.array([np.mean([d(a, b) for a in gi for b in bag]) for gi in groups])
    return (lambda p: float(2 * p.dot(Kt) - p.dot(K).dot(p))), float(max(K.max(), Kt.max(), 1e-12))


def judge(ob, p, groups, bag, d, what):
    k = len(groups)
    ob.distribution(p, k, what, 1e-6)
    f, scale = energy(groups, bag, d)
    best, bp = refs.best_on_simplex(f, k, d0=20 if k < 4 else 8, levels=7)
    got = f(np.clip(np.asarray(p, dtype=float), 0, 1))
    ob.expect(got <= best + 1e-6 * max(scale, 1e-3), '%s: %s has energy distance %.8f but %s has %.8f', what,
              np.round(p, 6).tolist(), got, np.round(bp, 5).tolist(), best)


def split(groups, points, rev=True):
    k = len(groups)
    order = [(c, i) for c in (reversed(range(k)) if rev else range(k)) for i in groups[c]]
    return np.array([c for c, _ in order]), np.array([points[i] for _, i in order], dtype=float)


# --- features
PTS = [(0.0, 0.0), (1.0, 4.0), (2.5, 1.0), (6.0, 3.0)]
XBAGS = [[(0.0, 0.0)], [(1.0, 4.0), (9.0, -2.0)], [(2.0, 2.0), (2.0, 2.0), (6.0, 3.0)]]


def x_cases(tier):
    q = tier == 'quick'
    one, two = D.multisets(range(4), 1), D.multisets(range(4), 2)
    sp = {2: list(itertools.product(one + two, repeat=2)), 3: list(itertools.product(two, one, one + two)),
          4: list(itertools.product(one, repeat=4)), 5: list(itertools.product(one, repeat=5))}
    for k in (2, 3, 4, 5):
        for dn in DISTS:
            for nf in (1, 2):
                for g in D.thin(sp[k], 60 if q else 250):
                    yield (k, dn, nf, g)


def x_check(case, ob):
    k, dn, nf, groups = case
    pts = [p[:nf] for p in PTS]
    c, X = split(groups, pts)
    lib, d = DISTS[dn]
    q = EDX(distance=lib)
    labels = D.LABELS[k][len(groups[0]) % len(D.LABELS[k])]
    q.fit(X, np.array(labels)[c])
    ob.op()
    for b in XBAGS:
        B = [v[:nf] for v in b]
        p = q.predict(np.array(B))
        ob.op()
        ob.state(p)
        judge(ob, p, [[pts[i] for i in g] for g in groups], B, d, 'EDX(%s) classes %s, bag %s' % (
            dn, [[pts[i] for i in g] for g in groups], B))


# --- predictions
def y_cases(tier):
    q = tier == 'quick'
    for k, d in ((2, 4), (3, 2), (4, 1)):
        R = range(len(D.simplex(k, d)))
        one, two = D.multisets(R, 1), D.multisets(R, 2)
        sp = list(itertools.product(one + two, repeat=2)) if k == 2 else list(itertools.product(
            two, *([one] * (k - 1)))) + list(itertools.product(*([one] * (k - 1)), two))
        for m in ('EDy', 'CvMy'):
            for dn in ('manhattan', 'euclidean'):
                for g in D.thin(sp, 120 if q else 900):
                    yield (k, d, m, dn, g)


def ranks(col):
    """joint average ranks"""
    return [sum(1 for w in col if w < v) + (sum(1 for w in col if w == v) + 1) / 2 for v in col]


def y_check(case, ob):
    k, d, m, dn, groups = case
    rows = [tuple(v / d for v in r) for r in D.simplex(k, d)]
    c, P = split(groups, rows)
    labels = D.LABELS[k][len(groups[-1]) % len(D.LABELS[k])]
    lib, dist = DISTS[dn]
    q = (EDy if m == 'EDy' else CvMy)(distance=lib)
    q.fit(np.zeros((len(c), 1)), np.array(labels)[c], predictions_train=P)
    ob.op()
    R = len(rows)
    for b in ((0,), (1, R - 1), (R // 2, 1, 1)):
        Q = np.array([rows[i] for i in b])
        p = q.predict(None, predictions_test=Q)
        ob.op()
        ob.state(p)
        if m == 'EDy':
            G, B = [[rows[i] for i in g] for g in groups], [rows[i] for i in b]
        else:
            al = np.vstack([P, Q])
            H = np.array([ranks(al[:, j].tolist()) for j in range(k)]).T
            G = [H[:len(c)][c == i].tolist() for i in range(k)]
            B = H[len(c):].tolist()
        judge(ob, p, G, B, dist, '%s(%s) classes %s, bag %s' % (m, dn, [[rows[i] for i in g] for g in groups],
                                                                 [rows[i] for i in b]))


# --- mixtures
def mix_cases(tier):
    q = tier == 'quick'
    for k, d in ((2, 6), (3, 4), (4, 3)) if q else ((2, 12), (3, 8), (4, 5), (5, 4)):
        for a in D.simplex(k, d):
            for m in ('EDX', 'EDy'):
                yield (k, d, a, m)


def mix_check(case, ob):
    k, d, a, m = case
    base = []
    for c in range(k):
        s = [0.1 / (k - 1)] * k
        s[c] = 0.9
        f = [0.6 / (k - 1)] * k
        f[c] = 0.4
        base.append([s, f])
    X = np.array([base[c][i] for i in range(2) for c in range(k)])
    y = np.array([c for i in range(2) for c in range(k)])
    bag = np.array([r for c in range(k) for _ in range(a[c]) for r in base[c]])
    if m == 'EDX':
        q = EDX()
        q.fit(X, y)
        p = q.predict(bag)
    else:
        q = EDy()
        q.fit(np.zeros((len(y), 1)), y, predictions_train=X)
        p = q.predict(None, predictions_test=bag)
    ob.op(2)
    ob.state(p)
    ob.close(p, np.array(a) / d, 1e-6, '%s: mixture %s not recovered' % (m, a))


# --- many classes, features and examples
def large_cases(tier):
    q = tier == 'quick'
    for m in ('EDX', 'EDy', 'CvMy'):
        for k in (2, 3, 6, 10):
            for n in (40, 160) if q else (40, 160, 500):
                for dn in DISTS:
                    for nf in ((1, 12) if q else (1, 4, 12, 40)) if m == 'EDX' else (0,):
                        for seed in range(1 if q else 3):
                            yield (m, k, n, dn, nf, seed)


def large_check(case, ob):
    m, k, n, dn, nf, seed = case
    lib, d = DISTS[dn]
    pair = lambda A, B: np.abs(A[:, None, :] - B[None, :, :]).sum(axis=2) / (2 if dn == 'halved' else 1) if dn != 'euclidean' \
        else np.sqrt(((A[:, None, :] - B[None, :, :]) ** 2).sum(axis=2))
    lab = np.array(large.labels(k, (seed + n // 40 + nf) % 4))
    reps = 1 + (seed + k + n) % 3
    y, X = large.features(k, n, nf, seed) if m == 'EDX' else large.problem(k, n, seed, reps=reps)
    q = dict(EDX=EDX, EDy=EDy, CvMy=CvMy)[m](distance=lib)
    if m == 'EDX':
        q.fit(X, lab[y])
    else:
        q.fit(np.zeros((len(y) // reps, 1)), lab[y[:len(y) // reps]], predictions_train=X)
    ob.op()
    for b in (1, 25, 200):
        B = large.feature_bag(k, b, nf, seed) if m == 'EDX' else large.bag(k, b, seed)
        p = q.predict(B) if m == 'EDX' else q.predict(None, predictions_test=B)
        ob.op()
        ob.state(p)
        Z, T = X, B
        if m == 'CvMy':
            al = np.vstack([X, B])
            H = np.stack([[(c < v).sum() + ((c == v).sum() + 1) / 2 for v in c] for c in al.T], axis=1)
            Z, T = H[:len(y)], H[len(y):]
        DD, DT = pair(Z, Z), pair(Z, T)
        K = np.array([[DD[np.ix_(y == i, y == j)].mean() for j in range(k)] for i in range(k)])
        Kt = np.array([DT[y == i].mean() for i in range(k)])
        what = '%s(%s) %d classes, %d features, %d training examples, bag of %d' % (m, dn, k, nf, len(y), b)
        ob.distribution(p, k, what, 1e-6)
        gap = large.quadratic_gap(K, Kt, np.asarray(p, float))
        ob.expect(gap <= 1e-5 * max(K.max(), Kt.max()), '%s: %s can be improved by %g', what, np.round(p, 5).tolist(), gap)


FAMILIES = [
    Family('features', x_cases, x_check, '2-5 classes of 1-2 examples among 4 points, 1-2 features, three distances'),
    Family('predictions', y_cases, y_check, '2-4 classes, predictions on a grid'),
    Family('mixtures', mix_cases, mix_check, 'every mixture on a grid is recovered'),
    Family('large', large_cases, large_check, '2-10 classes, 1-12 (40) features, 40-160 (500) examples, bags of 1-200')]
