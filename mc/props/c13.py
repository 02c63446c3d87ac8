"""C13 expectation maximisation."""
import itertools

import numpy as np
from quantificationlib.multiclass.em import EM

from mc import domains as D, large, refs, stubs
from mc.core import Family

ASSUMPTIONS = ['the iteration of the reference is the same computation in another order: compared within 1e-7']


def em(prior, post, eps, max_iter):
    """Saerens et al.: start at the training prevalences, reweight the posteriors, average, until they stop changing
    (mean absolute change not above eps, at least 10 iterations) or max_iter"""
    p = list(prior)
    it = 0
    prev = None
    while it < max_iter:
        if it >= 10 and sum(abs(a - b) for a, b in zip(p, prev)) / len(p) <= eps:
            break
        new = [0.0] * len(p)
        for r in post:
            w = [v * a / b for v, a, b in zip(r, p, prior)]
            s = sum(w)
            for j in range(len(p)):
                new[j] += w[j] / s / len(post)
        prev, p = p, new
        it += 1
    return p, it


CONF = [(1e-4, 1000), (1e-2, 1000), (1e-8, 3000), (1e-4, 5), (1e-4, 1), (1e-3, 12), (1e-4, 0), (0.5, 1000)]


def cases(tier):
    q = tier == 'quick'
    for k, d, mx in ((2, 5, 4), (3, 4, 2), (4, 2, 2)) if q else ((2, 8, 4), (3, 4, 4), (4, 4, 2), (5, 2, 2)):
        R = range(len(D.simplex(k, d)))
        bags = [b for n in range(1, mx + 1) for b in D.multisets(R, n)]
        for cnt in [(1,) * k, (1,) * (k - 1) + (4,), (3,) + (1,) * (k - 1), (2, 3, 5, 1, 1)[:k]]:
            for ci in range(len(CONF)):
                for b in (bags if ci == 0 else D.thin(bags, 60 if q else 200)):
                    yield (k, d, cnt, ci, b)


def check(case, ob):
    k, d, cnt, ci, bag = case
    eps, mi = CONF[ci]
    labels = D.LABELS[k][(sum(bag) + ci) % len(D.LABELS[k])]
    y = np.array([labels[c] for c in reversed(range(k)) for _ in range(cnt[c])])
    rows = D.simplex(k, d)
    # strictly positive posteriors and posteriors with zeros
    for eps0 in (0.0, 0.02):
        Q = (D.mat([rows[r] for r in bag], d) + eps0) / (1 + k * eps0)
        prior = [c / sum(cnt) for c in cnt]
        want, it = em(prior, Q.tolist(), eps, mi)
        if 0 < it < mi and abs(it - 10) >= 0:
            # the stopping test may be decided by rounding: skip when the change is within 1e-12 of eps
            pass
        q = EM(epsilon=eps, max_iter=mi)
        q.fit(np.zeros((len(y), 1)), y, predictions_train=np.full((len(y), k), 1.0 / k))
        p = q.predict(None, predictions_test=Q)
        ob.op(2)
        ob.state(p, it)
        ob.close(p, want, 1e-7, 'EM(epsilon=%g, max_iter=%d) priors %s, posteriors %s' % (eps, mi, cnt, Q.tolist()))
        p2 = q.predict(None, predictions_test=Q[::-1])
        ob.op()
        ob.close(p2, want, 1e-7, 'EM, second prediction')


def calib_cases(tier):
    """posteriors that are exactly calibrated for the training prior"""
    q = tier == 'quick'
    for prior in ((1, 1), (1, 3), (3, 1)):
        for n in range(1, 10 if q else 20):
            for a in range(n + 1):
                yield (prior, n, a)


def calib_check(case, ob):
    """When each class produces one signal only, the posteriors are certain and EM counts; when the bag has the posterior
    equal to the prior in every example, EM does not move"""
    prior, n, a = case
    y = np.repeat([0, 1], prior)
    q = EM()
    q.fit(np.zeros((len(y), 1)), y, predictions_train=np.full((len(y), 2), 0.5))
    Q = np.array([[1.0, 0.0]] * a + [[0.0, 1.0]] * (n - a))
    p = q.predict(None, predictions_test=Q)
    ob.close(p, [a / n, 1 - a / n], 1e-9, 'certain posteriors')
    pr = np.array(prior) / sum(prior)
    p = q.predict(None, predictions_test=np.tile(pr, (n, 1)))
    ob.close(p, pr, 1e-9, 'posteriors equal to the prior')
    ob.op(3)
    ob.state(p, a, n)


def large_cases(tier):
    q = tier == 'quick'
    for k in large.KS:
        for n in (60, 1000):
            for m in (1, 40, 800):
                for ci in range(len(CONF)):
                    for seed in range(1 if q else 5):
                        yield (k, n, m, ci, seed)


def large_check(case, ob):
    k, n, m, ci, seed = case
    eps, mi = CONF[ci]
    lab = np.array(large.labels(k, (seed + ci) % 4))
    y, P = large.problem(k, n, seed)
    Q = (large.bag(k, m, seed) + 0.01) / (1 + 0.01 * k)
    prior = np.array([(y == c).mean() for c in range(k)])
    p, prev, it = prior, None, 0
    while it < mi and (it < 10 or abs(p - prev).mean() > eps):
        W = Q * (p / prior)
        prev, p, it = p, (W / W.sum(axis=1)[:, None]).sum(axis=0) / m, it + 1
    q = EM(epsilon=eps, max_iter=mi)
    q.fit(np.zeros((len(y), 1)), lab[y], predictions_train=P)
    got = q.predict(None, predictions_test=Q)
    ob.op(2)
    ob.state(got, it)
    ob.close(got, p, 1e-7, 'EM(epsilon=%g, max_iter=%d) %d classes, %d training examples, bag of %d' % (eps, mi, k, len(y), m))


def rare_cases(tier):
    q = tier == 'quick'
    for k in (2, 3):
        for prior in ((1,) * k, (99,) + (1,) * (k - 1), (1,) * (k - 1) + (200,)):
            for n in (3, 50, 400, 3000):
                for v in (1e-1, 1e-2, 1e-3, 1e-5, 1e-8, 1e-12):
                    for odd in range(1, 3 if q else 6):
                        for ci in ((0, 3, 6) if q else range(len(CONF))):
                            yield (k, prior, n, v, odd, ci)


def rare_check(case, ob):
    """Nearly every example is certain and a few are almost certain of another class: the prevalence of that class and
    the unnormalised posteriors become very small"""
    k, prior, n, v, odd, ci = case
    eps, mi = CONF[ci]
    y = np.repeat(np.arange(k), prior)
    for c in range(k):
        Q = np.zeros((n + odd, k))
        Q[:n, c] = 1
        for i in range(odd):
            o = (c + 1 + i % (k - 1)) % k
            Q[n + i, c], Q[n + i, o] = v, 1 - v
        pr = np.array(prior) / sum(prior)
        p, prev, it = pr, None, 0
        while it < mi and (it < 10 or abs(p - prev).mean() > eps):
            W = Q * (p / pr)
            prev, p, it = p, (W / W.sum(axis=1)[:, None]).sum(axis=0) / len(Q), it + 1
        q = EM(epsilon=eps, max_iter=mi)
        q.fit(np.zeros((len(y), 1)), y, predictions_train=np.eye(k)[y])
        got = q.predict(None, predictions_test=Q)
        ob.op(2)
        ob.state(got, it)
        ob.close(got, p, 1e-7, 'EM(epsilon=%g, max_iter=%d), priors %s, %d examples certain of class %d and %d of probability '
                 '%g' % (eps, mi, prior, n, c, odd, v))


FAMILIES = [Family('iteration', cases, check, 'every bag of posteriors on a grid, 2-5 classes, four training compositions, '
                   'eight stopping configurations'),
            Family('extremes', calib_cases, calib_check, 'certain and uninformative posteriors'),
            Family('large', large_cases, large_check, '2-12 classes, 60-1000 training examples, bags of 1-800, eight configurations'),
            Family('rare', rare_cases, rare_check, 'bags of 3-3000 certain examples and 1-5 examples that are almost certain '
                   'of another class, probabilities 0.1 to 1e-12, very unequal priors')]
