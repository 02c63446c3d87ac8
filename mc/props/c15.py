"""C15 one-dimensional matching methods: QUANTy (quantiles) and SORDy (earth mover's distance)."""
import itertools
from fractions import Fraction as F

import numpy as np
from quantificationlib.binary.emd import SORDy
from quantificationlib.binary.quantiles import QUANTy
from quantificationlib.metrics.multiclass import l1, l2

from mc import domains as D, large, refs
from mc.core import CheckFailed, Family, call

ASSUMPTIONS = ['prevalences are judged by their loss: the one returned may be at most 1e-3 (quantiles, whose remainders '
               'below 1e-4 examples are dropped by design) or 2e-5 (earth mover) worse than the best one']

GRID = [0.0, 0.2, 0.5, 0.6, 1.0]


def quantiles(values, weights, n):
    """average value of each of the n equal-mass slices of a weighted sample"""
    vw = sorted(zip(values, weights))
    tot = sum(w for _, w in vw)
    res = []
    for j in range(n):
        lo, hi = tot * j / n, tot * (j + 1) / n
        cum, s = 0.0, 0.0
        for v, w in vw:
            s += v * max(0.0, min(hi, cum + w) - max(lo, cum))
            cum += w
        res.append(s * n / tot)
    return np.array(res)


def q_loss(neg, pos, bag, n, dist):
    t = quantiles(bag, [1.0] * len(bag), n)

    def loss(p):
        v = list(neg) + list(pos)
        w = [(1 - p) / len(neg)] * len(neg) + [p / len(pos)] * len(pos)
        return dist(quantiles(v, w, n), t)
    return loss


def emd_loss(neg, pos, bag):
    """area between the distribution functions of the mixture and of the bag"""
    cuts = sorted(set(list(neg) + list(pos) + list(bag)))

    def loss(p):
        s = 0.0
        for a, b in zip(cuts, cuts[1:]):
            fm = (1 - p) * sum(v <= a for v in neg) / len(neg) + p * sum(v <= a for v in pos) / len(pos)
            s += abs(fm - sum(v <= a for v in bag) / len(bag)) * (b - a)
        return s
    return loss


def sample(neg, pos, labels, order):
    rows = [(0, v) for v in neg] + [(1, v) for v in pos]
    if order == 1:
        rows = rows[::-1]
    elif order == 2:
        rows = rows[1::2] + rows[0::2]
    P = np.array([(1 - v, v) for _, v in rows])
    return np.array([labels[c] for c, _ in rows]), P


def probs(bag):
    return np.array([(1 - v, v) for v in bag])


def groups(tier, big):
    r = range(len(GRID))
    one, two, three = (D.multisets(r, n) for n in (1, 2, 3))
    sp = list(itertools.product(one + two, one + two)) + list(itertools.product(three, one)) + list(
        itertools.product(two, three))
    return sp if big else D.thin(sp, 110)


BAGS = [(2,), (0, 4), (1, 1, 3), (0, 2, 3, 4), (4, 4, 4, 1, 0)]


def q_cases(tier):
    q = tier == 'quick'
    for nq in (1, 2, 3, 4, 8):
        for dn in ('l2', 'l1'):
            gs = groups(tier, False) if q else D.thin(groups(tier, True), 330)
            for i, (g, h) in enumerate(gs):
                if q and i % 2 != (dn == 'l1'):
                    continue
                yield (nq, dn, i % 3, g, h)


REFD = {'l1': refs.d_l1, 'l2': refs.d_l2}
LIBD = {'l1': l1, 'l2': l2}


def q_check(case, ob):
    nq, dn, order, g, h = case
    neg, pos = [GRID[i] for i in g], [GRID[i] for i in h]
    labels = D.LABELS[2][(len(g) + 2 * len(h) + nq) % len(D.LABELS[2])]
    y, P = sample(neg, pos, labels, order)
    q = QUANTy(n_quantiles=nq, distance=LIBD[dn])
    q.fit(np.zeros((len(y), 1)), y, predictions_train=P)
    ob.op()
    for b in BAGS[:3] if nq == 8 else BAGS:
        bag = [GRID[i] for i in b]
        loss = q_loss(neg, pos, bag, nq, REFD[dn])
        st, p = call(q.predict, None, predictions_test=probs(bag))
        ob.op()
        what = 'QUANTy(n_quantiles=%d, %s) neg %s pos %s bag %s' % (nq, dn, neg, pos, bag)
        t = quantiles(bag, [1.0] * len(bag), nq)
        ob.close(q.test_distrib_, t, 1e-3, what + ': quantiles of the bag')
        if st == 'exc':
            v = [loss(a / 100) for a in range(101)]
            ob.expect(isinstance(p, ValueError) and max(v) - min(v) < 1e-3, '%s: %r', what, p)
            ob.state('flat')
            continue
        ob.state(p)
        ob.distribution(p, 2, what, 1e-9)
        best, bp = refs.best_binary(loss, 100)
        got = loss(float(p[1]))
        ob.expect(got <= best + 1e-3, '%s: prevalence %.5f has loss %.6f but %.5f has %.6f', what, p[1], got, bp, best)


def s_cases(tier):
    q = tier == 'quick'
    gs = groups(tier, True)
    for i, (g, h) in enumerate(D.thin(gs, 300) if q else gs):
        for order in (0, 1, 2):
            yield (order, g, h)


def s_check(case, ob):
    order, g, h = case
    neg, pos = [GRID[i] for i in g], [GRID[i] for i in h]
    labels = D.LABELS[2][(len(g) + 2 * len(h) + order) % len(D.LABELS[2])]
    y, P = sample(neg, pos, labels, order)
    q = SORDy()
    q.fit(np.zeros((len(y), 1)), y, predictions_train=P)
    ob.op()
    for b in BAGS + [(0,), (4,), (0, 0, 0, 1)]:
        bag = [GRID[i] for i in b]
        what = 'SORDy neg %s pos %s bag %s' % (neg, pos, bag)
        p = q.predict(None, predictions_test=probs(bag))
        ob.op()
        ob.state(p)
        ob.distribution(p, 2, what, 1e-9)
        loss = emd_loss(neg, pos, bag)
        # convex and piecewise linear
        best, bp = refs.best_binary(loss, 50)
        got = loss(float(p[1]))
        ob.expect(got <= best + 2e-5, '%s: prevalence %.5f has cost %.6f but %.5f has %.6f', what, p[1], got, bp, best)


def mix_cases(tier):
    n = 8 if tier == 'quick' else 20
    for m in ('QUANTy', 'SORDy'):
        for d in range(1, n + 1):
            for a in range(d + 1):
                for cfg in range(2):
                    yield (m, d, a, cfg)


def mix_check(case, ob):
    m, d, a, cfg = case
    neg, pos = ([0.1, 0.4], [0.55, 0.9]) if cfg == 0 else ([0.3, 0.2, 0.6], [0.45, 0.8, 0.95])
    y, P = sample(neg, pos, D.LABELS[2][d % 5], d % 3)
    q = QUANTy(n_quantiles=4) if m == 'QUANTy' else SORDy()
    q.fit(np.zeros((len(y), 1)), y, predictions_train=P)
    bag = neg * (d - a) + pos * a
    p = q.predict(None, predictions_test=probs(bag[::-1]))
    ob.op(2)
    ob.state(p)
    ob.close(p, [1 - a / d, a / d], 2e-3 if m == 'QUANTy' else 2e-5, '%s: mixture %d/%d of %s and %s' % (m, a, d, neg, pos))


# --- many examples and quantiles
def large_cases(tier):
    q = tier == 'quick'
    for n in (20, 90):
        for seed in range(4 if q else 20):
            for nq in (10, 40, 100):
                yield ('l2' if (seed + nq) % 3 else 'l1', n, nq, seed)
            yield ('SORDy', n, 0, seed)
            yield ('SORDy', 10 * n, 0, seed)


def large_check(case, ob):
    m, n, nq, seed = case
    reps = 1 + (seed + n) % 3
    y, P = large.problem(2, n, seed, 1 << 20 if seed % 2 else 64, reps)
    lab = np.array(large.labels(2, seed % 4))
    neg, pos = P[y == 0, 1].tolist(), P[y == 1, 1].tolist()
    q = SORDy() if m == 'SORDy' else QUANTy(n_quantiles=nq, distance=LIBD[m])
    q.fit(np.zeros((len(y) // reps, 1)), lab[y[:len(y) // reps]], predictions_train=P)
    ob.op()
    for b in (1, 17, n + 3):
        B = large.bag(2, b, seed)
        bag = B[:, 1].tolist()
        what = '%s, %d quantiles, %d training examples, bag of %d' % (m, nq, len(y), b)
        p = q.predict(None, predictions_test=B)
        ob.op()
        ob.state(p)
        ob.distribution(p, 2, what, 1e-9)
        if m == 'SORDy':
            al = np.unique(np.concatenate([neg, pos, bag]))
            F0, F1, Ft = (np.searchsorted(np.sort(v), al[:-1], side='right') / len(v) for v in (neg, pos, bag))
            loss = lambda a: float((abs((1 - a) * F0 + a * F1 - Ft) * np.diff(al)).sum())
        else:
            loss = q_loss(neg, pos, bag, nq, REFD[m])
        best, bp = refs.best_binary(loss, 40)
        got = loss(float(p[1]))
        ob.expect(got <= best + (2e-5 if m == 'SORDy' else 2.5e-4 * nq), '%s: prevalence %.5f has loss %.6f but %.5f has %.6f', what,
                  p[1], got, bp, best)


FAMILIES = [
    Family('quanty', q_cases, q_check, '1-3 examples per class on 5 values, 1-8 quantiles, two distances, 5 bags each'),
    Family('sordy', s_cases, s_check, '1-3 examples per class on 5 values, 3 orders, 8 bags each'),
    Family('mixtures', mix_cases, mix_check, 'every mixture a/d with d up to a bound is recovered'),
    Family('large', large_cases, large_check, '20-90 (earth mover 900) training examples, 10-100 quantiles, bags of 1-93')]
