"""C28 proportion-weighted nearest neighbours (PWK) and its quantifier."""
import itertools
from fractions import Fraction as F

import numpy as np
from sklearn.exceptions import NotFittedError
from quantificationlib.estimators.weighted_knn import PWK
from quantificationlib.multiclass.knn import PWKQuantifier

from mc import domains as D, large, refs
from mc.core import Family, call

ASSUMPTIONS = ['samples and bags in which the k nearest neighbours of every example are unique; when several classes have '
               'the largest weight any of them may be predicted, and the adjusted counts are compared only when the training '
               'predictions are unique']

# no point is at the same distance from two others, with any of the metrics
POINTS = [(0, 0), (1, 4), (3, 9), (7, 2), (15, 11), (31, 5)]
QUERIES = [(0, 0), (1.2, 3.1), (2.3, 8.7), (5.1, 3.3), (11.4, 9.2), (40, 3), (-6, 20)]
METRICS = {
    'default': (dict(), lambda a, b: ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** 0.5),
    'p1': (dict(p=1), lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1])),
    'p3': (dict(p=3), lambda a, b: (abs(a[0] - b[0]) ** 3 + abs(a[1] - b[1]) ** 3) ** (1 / 3)),
    'chebyshev': (dict(metric='chebyshev'), lambda a, b: max(abs(a[0] - b[0]), abs(a[1] - b[1]))),
    'weighted': (dict(metric='seuclidean', metric_params=dict(V=np.array([1.0, 0.05]))),
                 lambda a, b: ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2 / 0.05) ** 0.5),
}


def neighbours(i_pts, q, k, dist):
    """indexes of the k nearest points, None when they are not unique"""
    d = sorted((dist(POINTS[p], q), i) for i, p in enumerate(i_pts))
    if k < len(d) and d[k][0] - d[k - 1][0] < 1e-9:
        return None
    return [i for _, i in d[:k]]


def votes(y, nb, k):
    n = len(y)
    w = [1 - F(sum(1 for v in y if v == c), n) for c in range(k)]
    return [w[c] * sum(1 for i in nb if y[i] == c) for c in range(k)]


def model(pts, y, kk, k, queries, metric):
    """votes of every query, None when the neighbours are not unique"""
    res = []
    for q in queries:
        nb = neighbours(pts, q, kk, METRICS[metric][1])
        if nb is None:
            return None
        res.append(votes(y, nb, k))
    return res


def winners(v):
    return [c for c in range(len(v)) if v[c] == max(v)]


# --- classifier
def cases(tier):
    quick = tier == 'quick'
    for k, n in ((2, 3), (2, 4), (2, 5), (3, 4), (3, 5), (4, 5)) + (() if quick else ((2, 6), (3, 6), (4, 6), (5, 6))):
        ys = D.surjections(n, k)
        for y in D.thin(ys, 60 if quick else 400):
            for kk in range(1, n + 1):
                for m in METRICS:
                    if m == 'default' or kk in (2, 3):
                        yield (k, y, kk, m)


def check(case, ob):
    k, y, kk, m = case
    n = len(y)
    labels = np.array(D.LABELS[k][(sum(y) + kk) % len(D.LABELS[k])])
    pts = list(range(n))
    X = np.array(POINTS, dtype=float)[pts]
    Q = np.array(QUERIES, dtype=float)
    v = model(pts, y, kk, k, QUERIES, m)
    if v is None:
        return
    args = dict(METRICS[m][0])
    alg = ('auto', 'brute') if m != 'default' else ('auto', 'brute', 'kd_tree', 'ball_tree')
    for how, a in enumerate(alg):
        if how % 2 == 0:
            clf = PWK(n_neighbors=kk, algorithm=a, **args)
        else:           # parameters changed after the constructor and after fitting another data set
            clf = PWK(n_neighbors=1)
            clf.fit(X[::-1] + 100, labels[np.array(y)])
            clf.set_params(n_neighbors=kk, algorithm=a, **args)
        r = clf.fit(X, labels[np.array(y)])
        ob.expect(r is clf, 'fit returns %r', r)
        P = clf.predict_proba(Q)
        L = clf.predict(Q)
        ob.op(3)
        ob.state(P, [str(s) for s in L])
        want = [[float(a / sum(r)) if sum(r) else 0.0 for a in r] for r in v]
        what = '%d neighbours (%s, %s), labels %s' % (kk, m, a, y)
        ob.close(P, want, 1e-9, 'probabilities with ' + what)
        ob.expect(np.shape(L) == (len(Q),), '%s: predictions of shape %s', what, np.shape(L))
        for i, row in enumerate(v):
            ob.expect(any(L[i] == labels[c] for c in winners(row)), '%s: example %s predicted as %r, weights %s', what,
                      QUERIES[i], L[i], [str(s) for s in row])
        ob.expect(list(clf.classes_) == sorted(labels.tolist()), '%s: classes %s', what, clf.classes_)


# --- quantifier
def q_cases(tier):
    quick = tier == 'quick'
    for k, n in ((2, 4), (2, 5), (3, 5)) + ((3, 6), (2, 6), (4, 6)):
        for y in D.thin(D.surjections(n, k), (30 if k == 2 else 16) if quick else 300):
            for kk in (1, 2, 3) + (() if quick else (4, 5)):
                if kk < n:
                    for m in ('default', 'p1', 'chebyshev'):
                        yield (k, y, kk, m)


def q_bags(quick=True):
    return [b for n in (1, 2, 3) for b in itertools.combinations(range(len(QUERIES)), n)][::5] + [tuple(range(7)),
                                                                                                (0, 0, 0, 4)]


def q_check(case, ob):
    k, y, kk, m = case
    n = len(y)
    labels = np.array(D.LABELS[k][(sum(y) + kk) % len(D.LABELS[k])])
    pts = list(range(n))
    X = np.array(POINTS, dtype=float)[pts]
    tr = model(pts, y, kk, k, [POINTS[p] for p in pts], m)
    te = model(pts, y, kk, k, QUERIES, m)
    if tr is None or te is None or any(len(winners(v)) > 1 for v in tr + te):
        return
    cm = [[F(sum(1 for i in range(n) if y[i] == a and winners(tr[i])[0] == b), sum(1 for v in y if v == a))
           for b in range(k)] for a in range(k)]
    T = np.array(cm, dtype=float).T
    direct = PWKQuantifier(n_neighbors=kk, **METRICS[m][0])
    direct.fit(X, labels[np.array(y)])
    again = PWKQuantifier(n_neighbors=1, p=3)
    again.fit(X[:k] - 7, labels[np.arange(k)])
    again.predict(X[:k])
    again.set_params(n_neighbors=kk, **dict(dict(p=2), **METRICS[m][0]))
    again.fit(X, labels[np.array(y)])
    ob.op(4)
    for b in q_bags():
        obs = [F(sum(1 for i in b if winners(te[i])[0] == c), len(b)) for c in range(k)]
        for q, name in ((direct, 'new'), (again, 'refitted')):
            p = q.predict(np.array([QUERIES[i] for i in b], dtype=float))
            ob.op()
            ob.state(p)
            what = 'PWKQuantifier(%d, %s) %s, labels %s, bag %s' % (kk, m, name, y, b)
            if k == 2:
                d = cm[1][1] - cm[0][1]
                v = (obs[1] - cm[0][1]) / d if abs(d) > F(1, 1000) else obs[1]
                v = min(max(v, F(0)), F(1))
                ob.close(p, [float(1 - v), float(v)], 1e-9, what)
            else:
                ob.distribution(p, k, what, 1e-5)
                t = np.array(obs, dtype=float)
                ob.expect(refs.d_l1(T.dot(np.asarray(p)), t) <= refs.l1_simplex(T, t)[0] + 1e-5,
                          '%s: %s is at distance %.6f, %.6f is possible', what, p, refs.d_l1(T.dot(np.asarray(p)), t),
                          refs.l1_simplex(T, t)[0])


# --- not fitted
def unfit_cases(tier):
    return ['predict', 'predict_proba']


def unfit_check(case, ob):
    r, e = call(getattr(PWK(n_neighbors=1), case), np.zeros((2, 2)))
    ob.op()
    ob.expect(r == 'exc' and isinstance(e, NotFittedError), '%s of a new object: %r', case, e)


# --- many examples, classes and neighbours
def large_cases(tier):
    for k in (2, 5, 10):
        for n in (60, 400):
            for kk in (1, 10, 40):
                for m in ('default', 'p1', 'chebyshev'):
                    for seed in range(2 if tier == 'quick' else 10):
                        yield (k, n, kk, m, seed)


def large_check(case, ob):
    k, n, kk, m, seed = case
    g = large.Gen(seed + n + kk)
    labels = np.array(large.labels(k, seed % 4))
    y, X = large.features(k, n, 3, seed)
    near = lambda M: M + np.array([[g(1 << 24) / (1 << 20) for _ in range(3)] for _ in range(len(M))])
    X, Z = near(X), near(large.feature_bag(k, 100, 3, seed))
    w = 1 - np.array([(y == c).mean() for c in range(k)])

    def model(M):
        V = []
        for q in M:
            d = np.abs(X - q)
            d = np.sqrt((d ** 2).sum(axis=1)) if m == 'default' else d.sum(axis=1) if m == 'p1' else d.max(axis=1)
            o = np.argsort(d, kind='stable')
            if kk < len(o) and d[o[kk]] - d[o[kk - 1]] < 1e-9:
                return None
            V.append(w * np.bincount(y[o[:kk]], minlength=k))
        return np.array(V)

    V, Vt = model(Z), model(X)
    if V is None or Vt is None:
        ob.state('ambiguous')
        return
    clf = PWK(n_neighbors=kk, **METRICS[m][0]).fit(X, labels[y])
    P, L = clf.predict_proba(Z), clf.predict(Z)
    ob.op(3)
    ob.state(P)
    what = '%d neighbours (%s), %d classes, %d examples' % (kk, m, k, len(y))
    ob.close(P, V / V.sum(axis=1)[:, None], 1e-9, 'probabilities with ' + what)
    top = [np.where(v > v.max() - 1e-9)[0] for v in V]
    ob.expect(all(any(l == labels[c] for c in t) for l, t in zip(L, top)), 'predictions with %s', what)
    topt = [np.where(v > v.max() - 1e-9)[0] for v in Vt]
    if any(len(t) > 1 for t in top + topt):
        return
    q = PWKQuantifier(n_neighbors=kk, **METRICS[m][0])
    q.fit(X, labels[y])
    pt = np.array([t[0] for t in topt])
    M = np.array([[((y == b) & (pt == a)).sum() / (y == b).sum() for b in range(k)] for a in range(k)])
    for nt in (1, 30, 100):
        obs = np.bincount([t[0] for t in top[:nt]], minlength=k) / nt
        p = q.predict(Z[:nt])
        ob.op()
        ob.state(p)
        if k == 2:
            d = M[1, 1] - M[1, 0]
            v = min(max((obs[1] - M[1, 0]) / d if abs(d) > 1e-3 else obs[1], 0), 1)
            ob.close(p, [1 - v, v], 1e-9, what)
        else:
            large.judge(ob, p, M, obs, 'L1', what)


def thr_cases(tier):
    for g in (101, 499, 501, 667, 999, 1001, 1501):
        for kind in range(3):
            yield (g, kind)


def thr_check(case, ob):
    """two separate groups of g examples, (g + 1) / 2 of one class and (g - 1) / 2 of the other one, and g neighbours: the
    rates differ by 1 / g"""
    g, kind = case
    labels = D.LABELS[2][kind]
    m = g // 2
    X = np.concatenate([np.arange(g) / 64, 1000 + np.arange(g) / 64]).reshape(-1, 1)
    y = np.array([labels[(i * 2 % g > m) ^ grp] for grp in (0, 1) for i in range(g)])
    q = PWKQuantifier(n_neighbors=g).fit(X, y)
    ob.op()
    fpr, tpr = m / g, (m + 1) / g
    for a in (0, 1, 49, 50, 51, 99, 100):
        obs = a / 100
        v = min(max((obs - fpr) / (tpr - fpr) if tpr - fpr > 1e-3 else obs, 0), 1)
        p = q.predict(np.array([[1.0]] * (100 - a) + [[1001.0]] * a))
        ob.op()
        ob.state(p)
        ob.close(p, [1 - v, v], 1e-9, 'rates %g and %g, %d of 100 examples in the group of the second class' % (fpr, tpr, a))


FAMILIES = [
    Family('classifier', cases, check, '2-5 classes, labellings of 3-6 points, every number of neighbours, five metrics'),
    Family('quantifier', q_cases, q_check, '2-4 classes, labellings of 4-6 points, 1-5 neighbours, bags of 1-7 examples'),
    Family('not_fitted', unfit_cases, unfit_check, 'predictions before fitting'),
    Family('large', large_cases, large_check, '2-10 classes, 60-400 examples, 1-40 neighbours, bags of 1-100'),
    Family('threshold', thr_cases, thr_check, 'two groups of 101-1501 examples, rates that differ by 1/101 to 1/1501')]
