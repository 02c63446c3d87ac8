"""C12 Friedman's method."""
import itertools
from fractions import Fraction as F

import numpy as np
from quantificationlib.metrics import multiclass as M
from quantificationlib.multiclass.friedman import FriedmanME

from mc import domains as D, large, refs
from mc.core import Family, call

ASSUMPTIONS = ['objective gaps accepted from the solvers: 4e-5 x mass (half squared Hellinger), 1e-5 (L1, L2)']
FUNCS = {'hd': M.hd, 'l1': M.l1, 'l2': M.l2, 'topsoe': M.topsoe}


def cases(tier):
    q = tier == 'quick'
    for dist in ('L2', 'L1', 'HD', 'l2', 'hd', 'l1', 'topsoe'):
        R = range(5)
        sp = [g for g in itertools.product(*[D.multisets(R, 1) + D.multisets(R, 2) + [(0, 0, 4), (1, 2, 3)]] * 2)]
        for g in (D.thin(sp, 150) if dist != 'L2' and q else sp):
            yield (2, 4, dist, g)
        if dist in FUNCS:
            continue
        R = range(len(D.simplex(3, 4)))
        sp = list(itertools.product(D.multisets(R, 1), D.multisets(R, 2), D.multisets(R, 1)))
        for g in D.thin(sp, (600 if dist == 'L2' else 80) if q else 1500):
            yield (3, 4, dist, g)
        R = range(len(D.simplex(4, 2)))
        sp = list(itertools.product(*[D.multisets(R, 1)] * 4))
        for g in D.thin(sp, (200 if dist == 'L2' else 40) if q else 600):
            yield (4, 2, dist, g)


def check(case, ob):
    k, d, dist, groups = case
    rows = D.simplex(k, d)
    n = sum(len(g) for g in groups)
    prev = [F(len(g), n) for g in groups]
    order = [(c, r) for c in reversed(range(k)) for r in groups[c]]
    labels = D.LABELS[k][n % len(D.LABELS[k])]
    y = np.array(labels)[[c for c, _ in order]]
    P = D.mat([rows[r] for _, r in order], d)

    def rep(g):
        # fraction of the examples whose probability of each class reaches the training prevalence
        return np.array([float(F(sum(1 for r in g if F(rows[r][j], d) >= prev[j]), len(g))) for j in range(k)])

    # a probability equal to a prevalence is only exact when both are dyadic
    ties = any(F(rows[r][j], d) == prev[j] and (prev[j].denominator & (prev[j].denominator - 1)) for r in range(len(rows))
               for j in range(k))
    if ties:
        return
    A = np.stack([rep(g) for g in groups], axis=1)
    q = FriedmanME(distance=FUNCS.get(dist, dist))
    q.fit(np.zeros((n, 1)), y, predictions_train=P)
    ob.op()
    R = len(rows)
    for t in ((0,), (1, R - 1), (R // 2, 2, 2, 3)):
        r, p = call(q.predict, None, D.mat([rows[i] for i in t], d))
        ob.op()
        what = 'FriedmanME(%s) classes %s, bag %s' % (dist, [[rows[i] for i in g] for g in groups], [rows[i] for i in t])
        if r == 'exc':
            ob.expect(isinstance(p, ValueError) and dist in FUNCS and refs.flat(A, rep(t), dist), '%s: %r', what, p)
            continue
        ob.state(p)
        refs.judge_match(ob, p, A, rep(t), dist, what)


def large_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 6, 9):
        for n in (50, 400, 2000):
            for dist in ('L2', 'L1', 'HD') + (('l2', 'hd', 'l1', 'topsoe') if k == 2 else ()):
                for seed in range(3 if q else 12):
                    yield (k, n, dist, seed)


def large_check(case, ob):
    k, n, dist, seed = case
    lab = np.array(large.labels(k, seed % 4))
    reps = 1 + (seed + k + n // 50) % 3
    y, P = large.problem(k, n, seed, 1 << 20, reps)
    prev = np.array([(y == c).mean() for c in range(k)])
    rep = lambda Z: np.array([(Z[:, j] >= prev[j]).mean() for j in range(k)])
    A = np.stack([rep(P[y == c]) for c in range(k)], axis=1)
    q = FriedmanME(distance=FUNCS.get(dist, dist))
    q.fit(np.zeros((len(y) // reps, 1)), lab[y[:len(y) // reps]], predictions_train=P)
    ob.op()
    for m in (1, 30, 700):
        B = large.bag(k, m, seed, 1 << 20)
        if min(abs(B - prev).min(), abs(P - prev).min()) < 1e-9:
            continue
        r, p = call(q.predict, None, B)
        ob.op()
        what = 'FriedmanME(%s) %d classes, %d training examples, bag of %d' % (dist, k, len(y), m)
        if r == 'exc':
            ob.expect(isinstance(p, ValueError) and dist in FUNCS and refs.flat(A, rep(B), dist), '%s: %r', what, p)
            continue
        ob.state(p)
        large.judge(ob, p, A, rep(B), dist, what)


FAMILIES = [Family('friedman', cases, check, '2-4 classes, unbalanced training samples, predictions on a grid (equal to '
                   'the training prevalence included), 7 distances'),
            Family('large', large_cases, large_check, '2-9 classes, 50-2000 training examples, bags of 1-700')]
