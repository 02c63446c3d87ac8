"""C23 ensembles of classifiers: one member per bag, trained with the examples of its bag."""
import itertools

import numpy as np
from sklearn.exceptions import NotFittedError
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers

from mc import domains as D, large, stubs
from mc.core import Family, call
from mc.stubs import Echo

ASSUMPTIONS = ['an ensemble that is already fitted is not trained again, as every classifier shared in the library']
PTS = [(0.0, 1.0), (1.5, 0.0), (2.0, 4.0), (5.0, 1.0), (6.5, 2.0)]
NEW = [(0.5, 0.5), (4.0, 2.0), (8.0, 8.0)]


def cases(tier):
    q = tier == 'quick'
    for k, y in ((2, (0, 1, 1)), (2, (1, 0, 0, 1)), (3, (0, 1, 2)), (3, (2, 0, 1, 2)), (3, (1, 1, 2, 0, 0)), (4, (3, 1, 0, 2))):
        n = len(y)
        bags = [b for s in (1, 2, 3) for b in itertools.combinations_with_replacement(range(n), s)]
        bags += [tuple(reversed(range(n)))]
        by = {}
        for b in bags:
            by.setdefault(len(b), []).append(b)
        sets = []
        for s, bs in by.items():
            sets += [(b,) for b in bs] + list(itertools.permutations(bs, 2))
            sets += list(itertools.combinations(bs, 3)) + [tuple(bs[i % len(bs)] for i in range(5))]
        for t in D.thin(sets, 120 if q else 2500):
            yield (k, y, t)


def logged():
    return sum(t[1] == 'm' for t in stubs.LOG)


def check(case, ob):
    k, y, bags = case
    n = len(y)
    labels = D.LABELS[k][(len(bags) + bags[0][0]) % len(D.LABELS[k])]
    if k == 3 and len(bags) % 2:
        labels = ('c', 'medium', 'the longest')
    X, Z = np.array(PTS[:n]), np.array(NEW)
    yl = np.array(labels)[list(y)]
    idx = np.array(bags, dtype=np.uint32).T
    base = Echo(tag='m')
    e = EnsembleOfClassifiers(base)
    for f in (e.predict, e.predict_proba):
        st, r = call(f, Z)
        ob.expect(st == 'exc' and isinstance(r, NotFittedError), 'not fitted: %r', r)
    Xc, yc, ic = X.copy(), yl.copy(), idx.copy()
    stubs.LOG.clear()
    e.fit(X, yl, idx)
    ob.op()
    ob.expect(logged() == len(bags), '%d trainings for %d bags', logged(), len(bags))
    ob.expect(not hasattr(base, 'classes_'), 'the estimator given was fitted')
    ob.expect(np.array_equal(X, Xc) and np.array_equal(yl, yc) and np.array_equal(idx, ic), 'inputs modified')
    ms = [Echo().fit(X[list(b)], yl[list(b)]) for b in bags]
    for rnd in range(2):
        for M in (Z, X):
            L, P = e.predict(M), e.predict_proba(M)
            ob.op(2)
            ob.expect(L.shape == (len(M), len(bags)) and P.shape == (len(M), len(bags), k), 'shapes %s %s', L.shape, P.shape)
            for i, m in enumerate(ms):
                want = np.zeros((len(M), k))
                for j, c in enumerate(m.classes_):
                    want[:, list(labels).index(c if isinstance(c, str) else int(c))] = m.predict_proba(M)[:, j]
                ob.close(P[:, i, :], want, 1e-12, 'member %d of %s' % (i, case))
                ob.expect([str(a) for a in L[:, i]] == [str(a) for a in m.predict(M)], 'labels of member %d of %s: %s', i, case,
                          L[:, i])
            ob.state(P, [str(v) for v in L.ravel()])
        if rnd == 0:
            e.fit(X, yl, idx[:, ::-1])      # already fitted: shared, not trained again
            ob.op()
            ob.expect(logged() == len(bags), 'trained again')


def large_cases(tier):
    for k in (2, 5, 11):
        for n in (50, 300):
            for nb, size in ((1, 10), (12, 300), (60, 15)):
                for seed in range(2 if tier == 'quick' else 10):
                    yield (k, n, nb, size, seed)


def large_check(case, ob):
    k, n, nb, size, seed = case
    g = large.Gen(seed + n + nb)
    labels = np.array(large.labels(k, seed % 4))
    y, X = large.features(k, n, 2, seed)
    Z = large.feature_bag(k, 40, 2, seed) + 0.3
    bags = [[g(len(y)) for _ in range(size)] for _ in range(nb)]
    if nb > 1:
        bags[nb // 2] = np.where(y == k - 1)[0].tolist() * (size // int((y == k - 1).sum()) + 1)      # only one class
        bags[nb // 2] = bags[nb // 2][:size]
    e = EnsembleOfClassifiers(Echo())
    e.fit(X, labels[y], np.array(bags).T)
    ob.op()
    P, L = e.predict_proba(Z), e.predict(Z)
    ob.op(2)
    ob.expect(P.shape == (40, nb, k) and L.shape == (40, nb), 'shapes %s %s', P.shape, L.shape)
    for i, b in enumerate(bags):
        m = Echo().fit(X[b], y[b])
        want = np.zeros((40, k))
        want[:, m.classes_] = m.predict_proba(Z)
        ob.close(P[:, i, :], want, 1e-12, 'member %d of %s' % (i, case))
        ob.expect([str(v) for v in L[:, i]] == [str(v) for v in labels[m.predict(Z)]], 'labels of member %d of %s', i, case)
    ob.state(P)


FAMILIES = [Family('bags', cases, check, '2-4 classes, sets of 1-5 bags of 1-5 examples, bags lacking classes included'),
            Family('large', large_cases, large_check, '2-11 classes, 50-300 examples, 1-60 bags of 10-300 examples')]
