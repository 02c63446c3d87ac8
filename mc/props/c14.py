"""C14 DeBias."""
import itertools
from fractions import Fraction as F

import numpy as np
from quantificationlib.binary.debias import DeBias

from mc import domains as D, large, stubs
from mc.core import Family, call

ASSUMPTIONS = []


def expected(d, tr, y, te):
    n = len(y)
    p1 = F(sum(y), n)
    p0 = 1 - p1
    V = sum((F(v, d) - p1) ** 2 for v in tr) / n / (p1 * p0)
    m = sum(F(v, d) for v in te) / len(te)
    if V == 0:
        return None
    p = p1 + (m - p1) / V
    p = min(max(p, F(0)), F(1))
    return [float(1 - p), float(p)]


def cases(tier):
    q = tier == 'quick'
    for d, n in ((4, 2), (4, 3), (4, 4)) if q else ((4, 2), (4, 3), (5, 4), (3, 5), (4, 5)):
        for y in D.surjections(n, 2):
            for tr in itertools.product(range(d + 1), repeat=n):
                if n == 4 and q and sum(tr) % 3:
                    continue
                yield (d, y, tr)


def check(case, ob):
    d, y, tr = case
    labels = D.LABELS[2][sum(tr) % 5]
    P = np.array([[(d - v) / d, v / d] for v in tr])
    yy = np.array(labels)[list(y)]
    q = DeBias()
    q.fit(np.zeros((len(y), 1)), yy, predictions_train=P)
    ob.op()
    for te in ((0,), (d,), (1, d), (2, 1, 0, d), (d - 1, d - 1, 2)):
        Q = np.array([[(d - v) / d, v / d] for v in te])
        p = q.predict(None, predictions_test=Q)
        ob.op()
        ob.state(p)
        want = expected(d, tr, y, te)
        what = 'DeBias training predictions %s/%d of %s, bag %s' % (tr, d, y, te)
        if want is None:
            ob.distribution(p, 2, what)
        else:
            ob.close(p, want, 1e-9, what)
    q2 = DeBias(estimator_train=stubs.Table(P.tolist()), estimator_test=stubs.Table(Q.tolist()))
    X = np.arange(len(y), dtype=float).reshape(-1, 1)
    q2.fit(X, yy)
    p2 = q2.predict(np.arange(len(te), dtype=float).reshape(-1, 1))
    ob.op(2)
    ob.close(p2, p, 1e-12, 'DeBias with classifiers')


def multi_cases(tier):
    for k in (3, 4):
        for n in (k, k + 1):
            for y in D.sorted_surjections(n, k):
                yield (k, y)


def multi_check(case, ob):
    k, y = case
    r, e = call(DeBias().fit, np.zeros((len(y), 1)), np.array(y), predictions_train=np.full((len(y), k), 1 / k))
    ob.op()
    ob.state(r)
    ob.expect(r == 'exc' and isinstance(e, (AttributeError, TypeError, ValueError)), 'DeBias accepts %d classes', k)


def large_cases(tier):
    for n in (30, 255, 257, 1000, 20000):
        for m in (1, 50, 256, 5000):
            for seed in range(4 if tier == 'quick' else 16):
                yield (n, m, seed)


def large_check(case, ob):
    n, m, seed = case
    lab = np.array(large.labels(2, seed % 4))
    reps = 1 + seed % 3
    y, P = large.problem(2, n, seed, reps=reps)
    Q = large.bag(2, m, seed)
    p1 = y.mean()
    V = ((P[:, 1] - p1) ** 2).mean() / (p1 * (1 - p1))
    a = min(max(p1 + (Q[:, 1].mean() - p1) / V, 0), 1)
    q = DeBias()
    q.fit(np.zeros((len(y) // reps, 1)), lab[y[:len(y) // reps]], predictions_train=P)
    p = q.predict(None, predictions_test=Q)
    ob.op(2)
    ob.state(p)
    ob.close(p, [1 - a, a], 1e-9, 'DeBias, %d training examples, bag of %d' % (len(y), m))


FAMILIES = [Family('formula', cases, check, 'every labelled training sample of 2-5 predictions on a grid, five bags'),
            Family('multiclass', multi_cases, multi_check, 'more than two classes are refused'),
            Family('large', large_cases, large_check, '30-20000 training examples, bags of 1-5000')]
