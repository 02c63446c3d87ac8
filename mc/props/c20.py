"""C20 ordinal classifiers: Frank & Hall decomposition (original rule, monotone rule, tree)."""
import contextlib
import io
import itertools
import math

import numpy as np
from sklearn.exceptions import NotFittedError
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.metrics.binary import absolute_error, squared_error

from mc import domains as D, large
from mc.core import Family, call
from mc.stubs import ByTask, Echo

ASSUMPTIONS = ['when several binary models are equally good (or several classes equally likely) any of them may be chosen']
CLS = {'plain': FrankAndHallClassifier, 'mono': FrankAndHallMonotoneClassifier, 'tree': FrankAndHallTreeClassifier}


def plain(left):
    k = len(left) + 1
    return [left[0]] + [(1 - left[i - 1]) * left[i] for i in range(1, k - 1)] + [1 - left[-1]]


def mono(left):
    up = [max(left[:i + 1]) for i in range(len(left))]
    lo = [min(left[i:]) for i in range(len(left))]
    av = [(a + b) / 2 for a, b in zip(up, lo)]
    return [av[0]] + [av[i] - av[i - 1] for i in range(1, len(av))] + [1 - av[-1]]


def kld(p, q, eps=1e-12):
    return p * math.log2((p + eps) / (q + eps)) + (1 - p) * math.log2((1 - p + eps) / (1 - q + eps))


PERF = {'kld': kld, 'ae': lambda p, q: abs(p - q), 'se': lambda p, q: (p - q) ** 2}
LIBPERF = {'ae': absolute_error, 'se': squared_error}


def tree(scores, lo, hi):
    """nested (position, left, right), leaves are class positions; None when two models tie"""
    if lo > hi:
        return lo
    s = scores[lo:hi + 1]
    if sorted(s)[0] > sorted(s)[-1] - 1e-9 and len(s) > 1 or (len(s) > 1 and sorted(s)[1] - sorted(s)[0] < 1e-9):
        raise ArithmeticError
    b = lo + s.index(min(s))
    return (b, tree(scores, lo, b - 1), tree(scores, b + 1, hi))


def tree_probs(node, left, k, acc=1.0, out=None):
    out = out if out is not None else [0.0] * k
    if isinstance(node, int):
        out[node] = acc
    else:
        tree_probs(node[1], left, k, acc * left[node[0]], out)
        tree_probs(node[2], left, k, acc * (1 - left[node[0]]), out)
    return out


def expected(kind, left_train, left_test, y, k, perf):
    """class probabilities of each test example; y are class positions"""
    if kind == 'plain':
        return [plain(r) for r in left_test]
    if kind == 'mono':
        return [mono(r) for r in left_test]
    n = len(y)
    sc = []
    for i in range(k - 1):
        sc.append(PERF[perf](sum(c <= i for c in y) / n, sum(r[i] for r in left_train) / n))
    t = tree(sc, 0, k - 2)
    return [tree_probs(t, r, k) for r in left_test]


def judge(ob, e, kind, X, want, labels, what):
    P, L = e.predict_proba(X), e.predict(X)
    ob.op(2)
    ob.close(P, want, 1e-9, what)
    ob.expect(len(L) == len(want), '%s: %d labels', what, len(L))
    for w, l, x in zip(want, L, np.asarray(X)[:, 0]):
        s = sorted(w)
        if s[-1] - s[-2] > 1e-9:
            ob.expect(str(l) == str(labels[w.index(s[-1])]), '%s: example %s with probabilities %s is predicted as %s', what, x,
                      w, l)
    if kind != 'plain':
        ob.close(np.sum(P, axis=1), np.ones(len(want)), 1e-9, what + ': sum of the probabilities')
    for r, l in zip(P.tolist(), L):
        ob.state(r, str(l))


# --- the binary models answer what the harness decides: every vector of probabilities on a grid
def rows(k, tier):
    d = {3: 8, 4: 4, 5: 3, 6: 2}[k] if tier == 'quick' else {3: 16, 4: 8, 5: 4, 6: 3}[k]
    return [tuple(v / d for v in r) for r in itertools.product(range(d + 1), repeat=k - 1)]


YS = {3: [(0, 1, 2), (2, 0, 1, 0), (1, 1, 2, 0, 2)], 4: [(0, 1, 2, 3), (3, 0, 2, 1, 1)], 5: [(4, 3, 2, 1, 0, 0), (0, 1, 2, 3, 4)],
      6: [(5, 0, 4, 1, 3, 2, 2)]}


def rule_cases(tier):
    q = tier == 'quick'
    for k in (3, 4, 5, 6):
        tr = [tuple(v / 10 for v in r) for r in itertools.product((1, 4, 8) if k < 6 else (2, 7), repeat=k - 1)]
        for yi in range(len(YS[k])):
            for kind in CLS:
                for perf in ('kld', 'ae', 'se') if kind == 'tree' else ('kld',):
                    use = tr if kind == 'tree' else tr[:2]
                    for t in use if not q else D.thin(use, 27):
                        yield (k, yi, kind, perf, t, tier)


def rule_check(case, ob):
    k, yi, kind, perf, t, tier = case
    y = YS[k][yi]
    labels = D.LABELS.get(k, [tuple(range(2, 2 + k))])
    labels = labels[int(10 * sum(t)) % len(labels)]
    n = len(y)
    test = rows(k, tier)
    tab = [tuple(t)] * n + test        # the training examples are the first n rows
    tasks = {''.join('1' if c <= i else '0' for c in y): [r[i] for r in tab] for i in range(k - 1)}
    kw = {} if kind != 'tree' or perf == 'kld' else dict(performance_measure=LIBPERF[perf])
    e = CLS[kind](ByTask(tasks), **kw)
    X = np.arange(n, dtype=float).reshape(-1, 1)
    e.fit(X, np.array(labels)[list(y)])
    ob.op()
    Z = np.arange(n, n + len(test), dtype=float).reshape(-1, 1)
    try:
        want = expected(kind, [t] * n, test, y, k, perf)
    except ArithmeticError:
        ob.state('tie')
        P = e.predict_proba(Z)
        ob.close(P.sum(axis=1), np.ones(len(test)), 1e-9, 'sum of the probabilities')
        return
    judge(ob, e, kind, Z, want, labels, '%s y=%s training probabilities %s' % (kind, y, t))


# --- real training
PTS = [(0.0, 1.0), (1.5, 0.0), (2.0, 4.0), (5.0, 1.0), (6.5, 2.0), (9.0, 9.0), (3.0, 3.0)]
NEW = [(0.5, 0.5), (4.0, 2.0), (8.0, 8.0), (2.5, 7.0)]


def data_cases(tier):
    q = tier == 'quick'
    for k, n in ((3, 4), (3, 5), (4, 5), (5, 6)) if q else ((3, 4), (3, 5), (3, 6), (4, 5), (4, 6), (5, 6), (5, 7)):
        ys = D.surjections(n, k)
        for y in D.thin(ys, 60 if q else 400):
            for kind in CLS:
                for opt in (0, 1) if kind != 'tree' else (0, 1, 2):
                    yield (k, y, kind, opt)


def data_check(case, ob):
    k, y, kind, opt = case
    labels = D.LABELS[k][sum(y) % len(D.LABELS[k])]
    n = len(y)
    X, Z = np.array(PTS[:n]), np.array(NEW)
    powers = [1] * (k - 1) if opt != 1 else [1 + (i % 3) for i in range(k - 1)]
    base = Echo()
    kw = {} if opt != 1 else dict(params_fit=[dict(power=p) for p in powers])
    if opt == 2:
        kw = dict(performance_measure=absolute_error)
    e = CLS[kind](base, **kw)
    st, r = call(e.predict_proba, Z)
    ob.expect(st == 'exc' and isinstance(r, NotFittedError), 'not fitted: %r', r)
    with contextlib.redirect_stdout(io.StringIO()):
        e.fit(X, np.array(labels)[list(y)])
    ob.op()
    ob.expect(not hasattr(base, 'classes_') and base.power == 1, 'the estimator given was fitted or modified')
    ob.expect([str(c) for c in e.classes_] == [str(c) for c in labels], 'classes_ %s', e.classes_)
    ms = [Echo(power=powers[i]).fit(X, np.array([1 if c <= i else 0 for c in y])) for i in range(k - 1)]
    left = lambda M: np.array([m.predict_proba(M)[:, 1] for m in ms]).T.tolist()
    try:
        want = expected(kind, left(X), left(Z), y, k, 'ae' if opt == 2 else 'kld')
        wt = expected(kind, left(X), left(X), y, k, 'ae' if opt == 2 else 'kld')
    except ArithmeticError:
        ob.state('tie')
        return
    what = '%s%s y=%s' % (kind, powers, y)
    judge(ob, e, kind, Z, want, labels, what)
    judge(ob, e, kind, X, wt, labels, what + ' (training set)')
    # fitted again with the classes reversed: nothing remains of the first fit
    y2 = tuple(k - 1 - c for c in y)
    with contextlib.redirect_stdout(io.StringIO()):
        e.fit(X, np.array(labels)[list(y2)])
    ob.op()
    ms = [Echo(power=powers[i]).fit(X, np.array([1 if c <= i else 0 for c in y2])) for i in range(k - 1)]
    try:
        want = expected(kind, left(X), left(Z), y2, k, 'ae' if opt == 2 else 'kld')
    except ArithmeticError:
        return
    judge(ob, e, kind, Z, want, labels, what + ' (second fit)')


# --- many classes and examples
def large_cases(tier):
    for k in (3, 7, 12, 20):
        for n in (60, 250):
            for kind in CLS:
                for perf in ('kld', 'ae', 'se') if kind == 'tree' else ('kld',):
                    for seed in range(2 if tier == 'quick' else 12):
                        yield (k, n, kind, perf, seed)


def large_check(case, ob):
    k, n, kind, perf, seed = case
    labels = large.labels(k, seed % 4)
    y, X = large.features(k, n, 2, seed)
    X = X + np.array([[0.01 * ((7 * i) % 13), 0] for i in range(len(y))])
    Z = large.feature_bag(k, 150, 2, seed) + 0.3
    e = CLS[kind](Echo(), **({} if kind != 'tree' or perf == 'kld' else dict(performance_measure=LIBPERF[perf])))
    with contextlib.redirect_stdout(io.StringIO()):
        e.fit(X, np.array(labels)[y])
    ob.op()
    ms = [Echo().fit(X, (y <= i).astype(int)) for i in range(k - 1)]
    left = lambda M: np.array([m.predict_proba(M)[:, 1] for m in ms]).T.tolist()
    try:
        want = expected(kind, left(X), left(Z), y.tolist(), k, perf)
        one = expected(kind, left(X), left(Z[:1]), y.tolist(), k, perf)
    except ArithmeticError:
        ob.state('tie')
        return
    what = '%s(%s) %d classes, %d examples' % (kind, perf, k, len(y))
    judge(ob, e, kind, Z, want, labels, what)
    judge(ob, e, kind, Z[:1], one, labels, what + ', one example')


FAMILIES = [
    Family('rules', rule_cases, rule_check, '3-6 classes, every vector of binary probabilities on a grid, every tree shape'),
    Family('training', data_cases, data_check, '3-5 classes, labellings of 4-7 examples, refits, parameters by model'),
    Family('large', large_cases, large_check, '3-20 classes, 60-250 examples')]
