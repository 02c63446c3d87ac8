"""C21 decision directed acyclic graph of pairwise classifiers."""
import itertools

import numpy as np
from sklearn.exceptions import NotFittedError
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier

from mc import domains as D, large
from mc.core import Family, call
from mc.stubs import ByTask, Echo

ASSUMPTIONS = ['when several classes are equally likely any of them may be predicted']


def reference(left, k, winner):
    """left[(i, j)]: probability of class i in the model i|j. The graph is walked node by node from the root."""
    def walk(i, j):
        if i == j:
            return {i: 1.0}
        p = left[(i, j)]
        if winner and j - i > 1:
            p = 1.0 if p >= 0.5 else 0.0
        out = {}
        for w, sub in ((p, walk(i, j - 1)), (1 - p, walk(i + 1, j))):
            for c, v in sub.items():
                out[c] = out.get(c, 0.0) + w * v
        return out
    r = walk(0, k - 1)
    return [r.get(c, 0.0) for c in range(k)]


def judge(ob, e, Z, want, labels, what):
    P, L = e.predict_proba(Z), e.predict(Z)
    ob.op(2)
    for r, l in zip(P.tolist(), L):
        ob.state(r, str(l))
    ob.close(P, want, 1e-9, what)
    ob.close(P.sum(axis=1), np.ones(len(Z)), 1e-9, what + ': sum of the probabilities')
    for w, l in zip(want, L):
        s = sorted(w)
        if s[-1] - s[-2] > 1e-9:
            ob.expect(str(l) == str(labels[w.index(s[-1])]), '%s: probabilities %s, predicted %s', what, w, l)


def pairs(k):
    return list(itertools.combinations(range(k), 2))


def grid(k, tier):
    q = tier == 'quick'
    vals = {2: (0, .25, .4, .6, 1), 3: (0, .2, .45, .7, 1), 4: (.1, .45, .8), 5: (.2, .7), 6: None}[k]
    if k == 3 and not q:
        vals = tuple(i / 20 for i in range(21) if i != 10)
    if k == 4 and not q:
        vals = (0, .3, .6, 1)
    return list(itertools.product(vals, repeat=len(pairs(k))))


Y = {2: [(0, 1), (1, 1, 0)], 3: [(0, 1, 2), (2, 1, 0, 0)], 4: [(0, 1, 2, 3), (3, 1, 2, 0, 2)], 5: [(4, 0, 3, 1, 2)]}


def table_cases(tier):
    for k in (2, 3, 4, 5):
        g = len(grid(k, tier))
        step = 64
        for yi in range(len(Y[k])):
            for m in ('full_probabilistic', 'winner_node'):
                for lo in range(0, g, step):
                    yield (k, yi, m, lo, min(g, lo + step), tier)


def table_check(case, ob):
    k, yi, m, lo, hi, tier = case
    y = Y[k][yi]
    n = len(y)
    labels = D.LABELS[k][(lo // 64 + yi) % len(D.LABELS[k])]
    rows = grid(k, tier)[lo:hi]
    tasks = {}
    for a, (i, j) in enumerate(pairs(k)):
        ids = [t for t in range(n) if y[t] in (i, j)]
        key = ','.join(str(t) for t in ids) + ':' + ''.join('1' if y[t] == j else '0' for t in ids)
        tasks[key] = [0.0] * n + [1 - r[a] for r in rows]
    e = DDAGClassifier(ByTask(tasks, ids=True), predict_method=m)
    X = np.arange(n, dtype=float).reshape(-1, 1)
    Z = np.arange(n, n + len(rows), dtype=float).reshape(-1, 1)
    st, r = call(e.predict_proba, Z)
    ob.expect(st == 'exc' and isinstance(r, NotFittedError), 'not fitted: %r', r)
    e.fit(X, np.array(labels)[list(y)])
    ob.op()
    want = [reference(dict(zip(pairs(k), r)), k, m == 'winner_node') for r in rows]
    judge(ob, e, Z, want, labels, '%s y=%s probabilities from %s' % (m, y, rows[0]))
    judge(ob, e, Z, want, labels, 'again: %s y=%s probabilities from %s' % (m, y, rows[0]))


PTS = [(0.0, 1.0), (1.5, 0.0), (2.0, 4.0), (5.0, 1.0), (6.5, 2.0), (9.0, 9.0), (3.0, 3.0)]
NEW = [(0.5, 0.5), (4.0, 2.0), (8.0, 8.0), (2.5, 7.0), (0.0, 1.0)]


def data_cases(tier):
    q = tier == 'quick'
    for k, n in ((2, 4), (3, 4), (3, 5), (4, 5), (4, 6), (5, 6)):
        for y in D.thin(D.surjections(n, k), 60 if q else 1000):
            for m in ('full_probabilistic', 'winner_node'):
                yield (k, y, m)


def data_check(case, ob):
    k, y, m = case
    n = len(y)
    labels = D.LABELS[k][sum(y) % len(D.LABELS[k])]
    X, Z = np.array(PTS[:n]), np.array(NEW)
    base = Echo()
    e = DDAGClassifier(base, predict_method=m)
    for yy in (y, tuple(k - 1 - c for c in y)):
        e.fit(X, np.array(labels)[list(yy)])
        ob.op()
        ob.expect(not hasattr(base, 'classes_'), 'the estimator given was fitted')
        left = {}
        for i, j in pairs(k):
            ids = [t for t in range(n) if yy[t] in (i, j)]
            P = Echo().fit(X[ids], np.array([int(yy[t] == j) for t in ids])).predict_proba(Z)
            left[(i, j)] = P[:, 0]
        want = [reference({a: float(left[a][r]) for a in left}, k, m == 'winner_node') for r in range(len(Z))]
        judge(ob, e, Z, want, labels, '%s y=%s' % (m, yy))


# --- many classes and examples
def large_cases(tier):
    for k in (3, 6, 9, 13):
        for n in (60, 200):
            for m in ('full_probabilistic', 'winner_node'):
                for seed in range(2 if tier == 'quick' else 12):
                    yield (k, n, m, seed)


def graph(left, k, winner):
    """probabilities of the classes, level by level"""
    w = {(0, k - 1): 1.0}
    for size in range(k - 1, 0, -1):
        for i in range(k - size):
            j = i + size
            v = w.get((i, j), 0.0)
            p = left[(i, j)]
            if winner and size > 1:
                p = 1.0 if p >= 0.5 else 0.0
            w[(i, j - 1)] = w.get((i, j - 1), 0.0) + v * p
            w[(i + 1, j)] = w.get((i + 1, j), 0.0) + v * (1 - p)
    return [w[(c, c)] for c in range(k)]


def large_check(case, ob):
    k, n, m, seed = case
    labels = large.labels(k, seed % 4)
    y, X = large.features(k, n, 2, seed)
    X = X + np.array([[0.01 * ((7 * i) % 13), 0] for i in range(len(y))])
    Z = large.feature_bag(k, 120, 2, seed) + 0.3
    e = DDAGClassifier(Echo(), predict_method=m)
    e.fit(X, np.array(labels)[y])
    ob.op()
    left = {}
    for i, j in pairs(k):
        use = (y == i) | (y == j)
        left[(i, j)] = Echo().fit(X[use], (y[use] == j).astype(int)).predict_proba(Z)[:, 0]
    want = [graph({a: float(v[r]) for a, v in left.items()}, k, m == 'winner_node') for r in range(len(Z))]
    judge(ob, e, Z, want, labels, '%s %d classes, %d examples' % (m, k, len(y)))
    judge(ob, e, Z[-1:], want[-1:], labels, '%s %d classes, %d examples, the last one' % (m, k, len(y)))


FAMILIES = [
    Family('graph', table_cases, table_check, '2-5 classes, every combination of pairwise probabilities on a grid, two rules'),
    Family('training', data_cases, data_check, '2-5 classes, labellings of 4-6 examples, refits'),
    Family('large', large_cases, large_check, '3-13 classes, 60-200 examples')]
