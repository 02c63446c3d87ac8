"""C07 adjusted counts: AC and PAC invert the misclassification matrix of the training set, documented fallbacks."""
import itertools
from fractions import Fraction as F

import numpy as np
from quantificationlib.baselines.ac import AC, PAC

from mc import domains as D, large, refs, stubs
from mc.core import Family

ASSUMPTIONS = ['Hellinger optima of the interior point solver are accepted within 4e-5 of its objective, L1/L2 within '
               '1e-5; the adjusted counts themselves within 1e-7']


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))


def solve(M, b):
    """M x = b with fractions (Cramer)"""
    d = det(M)
    n = len(M)
    return [det([[b[i] if c == j else M[i][c] for c in range(n)] for i in range(n)]) / d for j in range(n)]


def expected(cm, obs):
    """cm[i][j]: fraction of the examples of class i predicted as j; None when the matrix is singular"""
    k = len(cm)
    if k == 2:
        tpr, fpr = cm[1][1], cm[0][1]
        p = (obs[1] - fpr) / (tpr - fpr) if abs(tpr - fpr) > F(1, 1000) else obs[1]
        p = min(max(p, F(0)), F(1))
        return [1 - p, p]
    T = [[cm[i][j] for i in range(k)] for j in range(k)]
    if det(T) == 0:
        return None
    x = [max(v, F(0)) for v in solve(T, obs)]
    return [v / sum(x) for v in x]


def interleave(groups):
    """training set that mixes the classes: takes one example of each class in turn, last class first"""
    res = []
    for r in range(max(len(g) for g in groups)):
        for c in reversed(range(len(groups))):
            if r < len(groups[c]):
                res.append((c, groups[c][r]))
    return res


def judge(ob, p, cm, obs, dist, what):
    want = expected(cm, obs)
    k = len(cm)
    if want is not None:
        ob.close(p, [float(v) for v in want], 1e-7, what)
    else:
        ob.distribution(p, k, what, 1e-5)
        A = np.array(cm, dtype=float).T
        t = np.array(obs, dtype=float)
        best = refs.optimum(dist, A, t)
        got = refs.DIST[dist](A.dot(np.asarray(p)), t)
        ob.expect(refs.near_optimal(dist, got, best), '%s: singular matrix, %s distance %.6f but %.6f is possible', what, dist, got,
                  best)


# --- AC -----------------------------------------------------------------------------------------------------------
def ac_cases(tier):
    q = tier == 'quick'
    for n0, n1 in itertools.product(range(1, 5 if q else 7), repeat=2):
        for r0 in D.compositions(n0, 2):
            for r1 in D.compositions(n1, 2):
                yield (2, (r0, r1), 'HD')
    for ns in ([(2, 2, 2), (1, 3, 2)] if q else [(2, 2, 2), (1, 3, 2), (3, 3, 3), (4, 2, 3)]):
        for i, rows in enumerate(itertools.product(*[list(D.compositions(n, 3)) for n in ns])):
            yield (3, rows, ('HD', 'L2', 'L1')[i % 3])
    for i, rows in enumerate(D.thin(itertools.product(*[list(D.compositions(5, 3))] * 3), 150 if q else 1500)):
        yield (3, rows, ('HD', 'L2', 'L1')[i % 3])
    for i, rows in enumerate(D.thin(itertools.product(*[list(D.compositions(2, 4))] * 4), 150 if q else 1500)):
        yield (4, rows, ('HD', 'L2', 'L1')[i % 3])


TESTS = {2: [t for n in (1, 2, 3, 5) for t in D.compositions(n, 2)],
         3: [(1, 0, 0), (0, 0, 1), (1, 1, 0), (1, 1, 1), (2, 1, 1), (0, 3, 1), (1, 2, 4)],
         4: [(0, 1, 0, 0), (1, 1, 1, 1), (3, 1, 0, 1), (1, 2, 3, 4)]}


def ac_check(case, ob):
    k, rows, dist = case
    labels = D.LABELS[k][sum(rows[0]) % len(D.LABELS[k])]
    ex = interleave([[j for j in range(k) for _ in range(r[j])] for r in rows])
    y = np.array(labels)[[c for c, _ in ex]]
    pred = np.array(labels)[[p for _, p in ex]]
    cm = [[F(v, sum(r)) for v in r] for r in rows]
    tests = TESTS[k]
    if k > 2 and expected(cm, [F(1, k)] * k) is None:
        tests = tests[2:5]
    q = AC(distance=dist)
    q.fit(np.zeros((len(y), 1)), y, predictions_train=pred)
    ob.op()
    for t in tests:
        n = sum(t)
        tp = np.array(labels)[[j for j in reversed(range(k)) for _ in range(t[j])]]
        p = q.predict(None, predictions_test=tp)
        ob.op()
        ob.state(p)
        judge(ob, p, cm, [F(v, n) for v in t], dist, 'AC(%s) matrix %s, bag %s' % (dist, rows, t))


# --- PAC ----------------------------------------------------------------------------------------------------------
def pac_cases(tier):
    q = tier == 'quick'
    # k, denominator, row of probabilities (index) of each example of each class
    r2 = range(5)
    for a in itertools.product(r2, repeat=2):
        for b in itertools.product(r2, repeat=1 if q else 2):
            yield (2, 4, (a, b), 'L2')
    r3 = range(len(D.simplex(3, 3)))
    for i, t in enumerate(itertools.product(r3, repeat=3)):
        yield (3, 3, ((t[0],), (t[1],), (t[2],)), ('HD', 'L2', 'L1')[i % 3])
    alls = itertools.product(r3, repeat=5)
    for i, t in enumerate(D.thin(alls, 400 if q else 6000)):
        yield (3, 3, ((t[0], t[1]), (t[2],), (t[3], t[4])), ('HD', 'L2', 'L1')[i % 3])
    r4 = range(len(D.simplex(4, 2)))
    for i, t in enumerate(D.thin(itertools.product(r4, repeat=4), 150 if q else 3000)):
        yield (4, 2, tuple((v,) for v in t), ('HD', 'L2', 'L1')[i % 3])


def pac_check(case, ob):
    k, d, groups, dist = case
    rows = D.simplex(k, d)
    labels = D.LABELS[k][groups[0][0] % len(D.LABELS[k])]
    ex = interleave([list(g) for g in groups])
    y = np.array(labels)[[c for c, _ in ex]]
    P = D.mat([rows[r] for _, r in ex], d)
    cm = [[sum(F(rows[r][j], d) for r in g) / len(g) for j in range(k)] for g in groups]
    q = PAC(distance=dist)
    q.fit(np.zeros((len(y), 1)), y, predictions_train=P)
    ob.op()
    R = len(rows)
    bags = [(0,), (R - 1,), (0, 1, R - 1), (R // 2, 1, 2, 2)]
    if k > 2 and expected(cm, [F(1, k)] * k) is None:
        bags = bags[1:3]
    for bag in bags:
        p = q.predict(None, predictions_test=D.mat([rows[i] for i in bag], d))
        ob.op()
        ob.state(p)
        obs = [sum(F(rows[i][j], d) for i in bag) / len(bag) for j in range(k)]
        judge(ob, p, cm, obs, dist, 'PAC(%s) matrix %s, bag %s' % (dist, [[str(v) for v in r] for r in cm], bag))


# --- the classifier rates are almost equal ---------------------------------------------------------------------------
def thr_cases(tier):
    for n in (1000, 2000, 4000):
        for base in (0, 100, n // 2):
            for diff in sorted({-5, -1, 0, 1, n // 1000 - 1, n // 1000 + 1, n // 1000 * 2}):
                if abs(F(diff, n)) != F(1, 1000) and 0 <= base + diff <= n:
                    yield (n, base, diff)


def thr_check(case, ob):
    n, base, diff = case
    y = np.repeat([0, 1], n)
    pred = np.concatenate([np.arange(n) < base, np.arange(n) < base + diff]).astype(int)
    cm = [[F(n - base, n), F(base, n)], [F(n - base - diff, n), F(base + diff, n)]]
    for t in ((1, 0), (0, 1), (1, 1), (1, 3)):
        obs = [F(v, sum(t)) for v in t]
        tp = np.repeat([0, 1], t)
        q = AC()
        q.fit(np.zeros((2 * n, 1)), y, predictions_train=pred)
        p = q.predict(None, predictions_test=tp)
        want = [float(v) for v in expected(cm, obs)]
        ob.close(p, want, 1e-6, 'AC with tpr-fpr=%s, bag %s' % (F(diff, n), t))
        q = PAC()
        q.fit(np.zeros((2 * n, 1)), y, predictions_train=np.stack([1 - pred, pred], axis=1).astype(float))
        p = q.predict(None, predictions_test=np.stack([1 - tp, tp], axis=1).astype(float))
        ob.close(p, want, 1e-6, 'PAC with tpr-fpr=%s, bag %s' % (F(diff, n), t))
        ob.op(4)
        ob.state(p)


# --- through classifiers: the training matrix comes from the estimator of the training set, the bag from the other
def est_cases(tier):
    rows = D.simplex(2, 3)
    n = 3 if tier == 'quick' else 4
    for tr in itertools.product(range(4), repeat=n):
        for te in itertools.product(range(4), repeat=2):
            yield (tr, te)


def est_check(case, ob):
    tr, te = case
    rows = D.simplex(2, 3)
    Ptr = D.mat([rows[i] for i in tr], 3)
    Pte = D.mat([rows[i] for i in te], 3)
    y = np.array([3] + [9] * (len(tr) - 1))
    X = np.arange(len(y), dtype=float).reshape(-1, 1)
    T = np.arange(len(te), dtype=float).reshape(-1, 1)
    for cls in (AC, PAC):
        q = cls(estimator_train=stubs.Table(Ptr.tolist()), estimator_test=stubs.Table(Pte.tolist()))
        q.fit(X, y)
        p = q.predict(T)
        if cls is AC:
            hard = [refs.crisp(Ptr, (0, 1)), refs.crisp(Pte, (0, 1))]
            w = [[F(int(c == j)) for j in (0, 1)] for c in hard[0]]
            o = [[F(int(c == j)) for j in (0, 1)] for c in hard[1]]
        else:
            w = [[F(v, 3) for v in rows[i]] for i in tr]
            o = [[F(v, 3) for v in rows[i]] for i in te]
        cm = [w[0], [sum(r[j] for r in w[1:]) / (len(w) - 1) for j in (0, 1)]]
        obs = [sum(r[j] for r in o) / len(o) for j in (0, 1)]
        ob.op(2)
        ob.state(p)
        ob.close(p, [float(v) for v in expected(cm, obs)], 1e-9, '%s with classifiers' % cls.__name__)


# --- many classes, large training sets and bags
def large_cases(tier):
    q = tier == 'quick'
    for k in large.KS + (20,):
        for n in (60, 500) if q else (60, 300, 500, 3000):
            for kind in range(4):
                for seed in range(2 if q else 8):
                    yield (k, n, kind, seed)


def large_check(case, ob):
    k, n, kind, seed = case
    lab = np.array(large.labels(k, kind))
    reps = 1 + (seed + kind + n) % 3
    yi, P = large.problem(k, n, seed, reps=reps)
    yb = yi[:len(yi) // reps]
    for cls, T in ((PAC, P), (AC, np.eye(k)[P.argmax(axis=1)])):
        M = np.stack([T[yi == c].mean(axis=0) for c in range(k)], axis=1)
        for dist in ('HD', 'L2', 'L1'):
            q = cls(distance=dist)
            q.fit(np.zeros((len(yb), 1)), lab[yb], predictions_train=P if cls is PAC else lab[P.argmax(axis=1)])
            ob.op()
            for m in (1, 40, 1500):
                B = large.bag(k, m, seed)
                obs = (B if cls is PAC else np.eye(k)[B.argmax(axis=1)]).mean(axis=0)
                p = q.predict(None, predictions_test=B if cls is PAC else lab[B.argmax(axis=1)])
                ob.op()
                ob.state(p)
                what = '%s(%s) %d classes, %d training examples, bag of %d' % (cls.__name__, dist, k, len(yi), m)
                if k == 2:
                    r = M[1, 1] - M[1, 0]
                    if abs(abs(r) - 1e-3) < 1e-6:
                        continue
                    a = min(max((obs[1] - M[1, 0]) / r if abs(r) > 1e-3 else obs[1], 0), 1)
                    ob.close(p, [1 - a, a], 1e-7, what)
                elif np.linalg.cond(M) < 1e6:
                    x = np.maximum(np.linalg.solve(M, obs), 0)
                    ob.close(p, x / x.sum(), 1e-6, what)
                else:
                    large.judge(ob, p, M, obs, dist, what + ', singular matrix')


FAMILIES = [
    Family('ac', ac_cases, ac_check, 'every misclassification matrix of small training sets (2-4 classes), bags of '
           'several compositions'),
    Family('pac', pac_cases, pac_check, 'every training matrix of probabilities on a grid'),
    Family('threshold', thr_cases, thr_check, 'rates around the 0.001 threshold'),
    Family('classifiers', est_cases, est_check, 'different classifiers for training set and bag'),
    Family('large', large_cases, large_check, '2-20 classes, training sets of 60-500 (3000) examples, bags of 1-1500')]
