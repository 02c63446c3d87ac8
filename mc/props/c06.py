"""C06 classify & count / probabilistic classify & count report exactly the composition of the predictions."""
import itertools
from fractions import Fraction as F

import numpy as np
from quantificationlib.baselines.cc import CC, PCC

from mc import domains as D, large, refs, stubs
from mc.core import Family

ASSUMPTIONS = ['float predictions in a single column are probabilities of the second class, as documented']


def count(labels_pred, labels):
    n = len(labels_pred)
    return [float(F(sum(1 for v in labels_pred if v == c), n)) for c in labels]


def train(labels, order):
    y = np.array(labels)[list(order)]
    return np.arange(len(y), dtype=float).reshape(-1, 1), y


# --- crisp labels: all prediction vectors
def crisp_cases(tier):
    mx = {2: 7, 3: 5, 4: 4, 5: 3} if tier == 'quick' else {2: 11, 3: 7, 4: 6, 5: 5}
    for k in (2, 3, 4, 5):
        for li in range(len(D.LABELS[k])):
            for n in range(1, mx[k] + 1):
                for v in itertools.product(range(k), repeat=n):
                    if li == 0 or n <= 3:
                        yield (k, li, v)
    for k in (2, 3):    # large bags
        for n in (100, 255, 256, 257, 1000):
            for first in (0, 1, n // 3, n - 1):
                yield (k, 1, tuple([0] * first + [k - 1] * (n - first)))


def crisp_check(case, ob):
    k, li, v = case
    labels = D.LABELS[k][li]
    X, y = train(labels, tuple(range(k)) + tuple(reversed(range(k))))
    pred = np.array(labels)[list(v)]
    want = count(pred.tolist(), labels)
    for shape in ('1d', 'column'):
        q = CC()
        q.fit(X, y)
        p = q.predict(None, predictions_test=pred if shape == '1d' else pred.reshape(-1, 1))
        ob.op(2)
        ob.state(p)
        ob.close(p, want, 1e-12, 'CC of %s labels %r' % (shape, pred.tolist()[:12]))


# --- probability matrices
def prob_cases(tier):
    spec = [(2, 4, 4), (3, 2, 3), (3, 3, 3), (4, 2, 2)] if tier == 'quick' else [(2, 8, 4), (3, 3, 4), (3, 5, 3),
                                                                              (4, 2, 4), (4, 3, 3), (5, 2, 3)]
    for k, d, mx in spec:
        rows = D.simplex(k, d)
        for n in range(1, mx + 1):
            for m in itertools.product(range(len(rows)), repeat=n):
                yield (k, d, m)


def prob_check(case, ob):
    k, d, m = case
    rows = D.simplex(k, d)
    P = D.mat([rows[i] for i in m], d)
    n = len(m)
    li = (sum(m) + n) % len(D.LABELS[k])
    labels = D.LABELS[k][li]
    X, y = train(labels, range(k))
    soft = [float(sum(F(rows[i][j], d) for i in m) / n) for j in range(k)]
    hard = count(refs.crisp(P, labels), labels)
    cc, pcc = CC(), PCC()
    cc.fit(X, y)
    pcc.fit(X, y)
    P0 = P.copy()
    pc, pp = cc.predict(None, predictions_test=P), pcc.predict(None, predictions_test=P)
    ob.op(4)
    ob.state(pc, pp)
    ob.close(pc, hard, 1e-12, 'CC of probabilities %s' % P.tolist())
    ob.close(pp, soft, 1e-12, 'PCC of probabilities %s' % P.tolist())
    ob.expect(np.array_equal(P, P0), 'predictions modified')
    # through the classifier
    est = stubs.Table(table=P.tolist())
    cc, pcc = CC(estimator_test=est), PCC(estimator_test=est)
    cc.fit(X, y)
    pcc.fit(X, y)
    T = np.arange(n, dtype=float).reshape(-1, 1)
    pc, pp = cc.predict(T), pcc.predict(T)
    ob.op(4)
    ob.close(pc, hard, 1e-12, 'CC with a classifier predicting %s' % P.tolist())
    ob.close(pp, soft, 1e-12, 'PCC with a classifier predicting %s' % P.tolist())
    # the class of a bag that is a subset of the rows
    for sub in (T[:1], T[::-1], np.vstack([T, T])):
        idx = sub[:, 0].astype(int)
        ob.close(pcc.predict(sub), [float(sum(F(rows[m[i]][j], d) for i in idx) / len(idx)) for j in range(k)], 1e-12,
                 'PCC, next bag %s' % idx.tolist())
        ob.close(cc.predict(sub), count(refs.crisp(P[idx], labels), labels), 1e-12, 'CC, next bag %s' % idx.tolist())
        ob.op(2)


# --- binary probability vectors
def vec_cases(tier):
    mx = 4 if tier == 'quick' else 6
    for li in range(len(D.LABELS[2])):
        for n in range(1, mx + 1):
            for v in itertools.product(range(5), repeat=n):
                if li == 0 or n <= 3:
                    yield (li, v)


VALS = (0.0, 0.25, 0.4999999, 0.5, 1.0)


def vec_check(case, ob):
    li, v = case
    labels = D.LABELS[2][li]
    X, y = train(labels, (0, 1))
    pr = np.array([VALS[i] for i in v])
    want = count([labels[1] if x >= 0.5 else labels[0] for x in pr], labels)
    for a in (pr, pr.reshape(-1, 1), pr.astype(np.float32)):
        q = CC()
        q.fit(X, y)
        p = q.predict(None, predictions_test=a)
        ob.op(2)
        ob.state(p)
        ob.close(p, want, 1e-12, 'CC of the probability vector %s' % pr.tolist())


# --- many classes, large bags
def large_cases(tier):
    q = tier == 'quick'
    for k in large.KS + (30, 150):
        for n in (1, 50, 1000) if q else (1, 50, 255, 257, 1000, 5000, 70000):
            for kind in range(4):
                for seed in range(1 if q else 3):
                    yield (k, n, kind, seed)


def large_check(case, ob):
    k, n, kind, seed = case
    lab = np.array(large.labels(k, kind))
    P = large.bag(k, n, seed)
    X, y = np.zeros((2 * k, 1)), lab[list(range(k)) + list(reversed(range(k)))]
    top = P.argmax(axis=1)
    hard = [int((top == c).sum()) / n for c in range(k)]
    for q, given, want in ((CC(), P, hard), (CC(), lab[top], hard), (PCC(), P, P.sum(axis=0) / n),
                           (CC(estimator_test=stubs.Table(P.tolist())), None, hard),
                           (PCC(estimator_test=stubs.Table(P.tolist())), None, P.sum(axis=0) / n)):
        q.fit(X, y)
        p = q.predict(np.arange(n, dtype=float).reshape(-1, 1), predictions_test=given)
        ob.op(2)
        ob.state(p)
        ob.close(p, want, 1e-9, '%s of %d predictions of %d classes' % (type(q).__name__, n, k))


FAMILIES = [
    Family('crisp', crisp_cases, crisp_check, 'every vector of predicted labels (2-5 classes, 5 label sets), as vector '
           'and as column'),
    Family('probabilities', prob_cases, prob_check, 'every matrix of class probabilities on a grid, ties included; '
           'given directly and through a classifier, followed by other bags'),
    Family('binary-vector', vec_cases, vec_check, 'every vector of probabilities of the second class from 5 values'),
    Family('large', large_cases, large_check, '2-150 classes, bags of 1-1000 (70000) predictions, four types of labels')]
