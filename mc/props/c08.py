"""C08 distribution matching on classifier predictions (DFy, HDy, MMy)."""
import itertools

import numpy as np
from quantificationlib.metrics import multiclass as M
from quantificationlib.multiclass.df import DFy, HDy, MMy

from mc import domains as D, large, refs, stubs
from mc.core import Family, call

ASSUMPTIONS = ['objective gaps accepted from the solvers: 4e-5 (half squared Hellinger), 1e-5 (L1, L2); 1-D searches '
               'within 2e-4 of the prevalence', 'class distributions are compared through the objective, any minimiser '
               'is accepted when several exist']
FUNCS = {'hd': M.hd, 'l1': M.l1, 'l2': M.l2, 'topsoe': M.topsoe}
METHODS = [(c, d, f) for f in ('PDF', 'CDF') for c, d in (('DFy', 'L2'), ('DFy', 'HD'), ('DFy', 'L1'), ('DFy', 'l2'),
                                                          ('DFy', 'hd'), ('DFy', 'l1'), ('DFy', 'topsoe'))]
METHODS += [('HDy', 'HD', 'PDF'), ('MMy', 'L1', 'CDF')]
V = (0.0, 0.125, 0.45, 0.5, 0.8, 1.0)      # predictions of the first class, some of them on the cut points
TESTS = [(0.0, 0.125), (0.5, 0.8, 1.0), (0.45,), (0.125, 0.45, 0.5, 0.8), (0.0, 0.3, 0.3, 1.0, 1.0)]


def make(cls, dist, df, n_bins, strategy):
    if cls == 'HDy':
        return HDy(n_bins=n_bins, bin_strategy=strategy)
    if cls == 'MMy':
        return MMy(n_bins=n_bins, bin_strategy=strategy)
    return DFy(distribution_function=df, n_bins=n_bins, bin_strategy=strategy, distance=FUNCS.get(dist, dist))


def binary_cases(tier):
    ms = [m for n in (1, 2) for m in D.multisets(range(len(V)), n)]
    pairs = list(itertools.product(ms, repeat=2))
    n = 0
    q = tier == 'quick'
    for nb in ((2, 8, 5) if q else (2, 3, 4, 8, 5, 10)):
        for mi in range(len(METHODS)):
            fast = METHODS[mi][1] == 'L2'
            todo = pairs if (fast and nb == 8) or not q else D.thin(pairs, 40)
            for a, b in todo:
                yield (nb, mi, a, b)


def rounding(vals, nb):
    """a value on a cut point whose floating point number depends on how it is computed"""
    return any(abs(x - i / nb) < 1e-9 and len({i / nb, i * (1 / nb), float(np.linspace(0, 1, nb + 1)[i]), x}) > 1
               for x in vals for i in range(1, nb))


def binary_check(case, ob):
    nb, mi, a, b = case
    if rounding([V[i] for i in a + b], nb):
        return
    cls, dist, df = METHODS[mi]
    labels = D.LABELS[2][(nb + len(a)) % 5]
    # classes mixed in the training set, the second class first
    y = np.array([labels[1]] * len(b) + [labels[0]] * len(a))
    v = [V[i] for i in b] + [V[i] for i in a]
    P = np.array([[x, 1 - x] for x in v])
    q = make(cls, dist, df, nb, 'equal_width')
    q.fit(np.zeros((len(y), 1)), y, predictions_train=P)
    ob.op()
    cuts = [i / nb for i in range(1, nb)]
    A = np.stack([refs.represent([V[i] for i in g], cuts, df == 'CDF') for g in (a, b)], axis=1)
    for t in (TESTS if dist != 'HD' and dist != 'L1' else TESTS[:3]):
        if rounding(t, nb):
            continue
        r, p = call(q.predict, None, np.array([[x, 1 - x] for x in t]))
        ob.op()
        if r == 'exc':
            # the search refuses when all the prevalences are equally good
            ob.expect(isinstance(p, ValueError) and dist in FUNCS and refs.flat(A, refs.represent(t, cuts, df == 'CDF'),
                                                                                dist), '%s(%s,%s,%d bins) on %s: %r', cls, dist, df,
                      nb, t, p)
            continue
        ob.state(p)
        refs.judge_match(ob, p, A, refs.represent(t, cuts, df == 'CDF'), dist, '%s(%s,%s,%d bins), classes %s, bag %s' % (
            cls, dist, df, nb, ([V[i] for i in a], [V[i] for i in b]), t))


# --- more than two classes: one histogram per class probability
def multi_cases(tier):
    q = tier == 'quick'
    r3 = len(D.simplex(3, 4))
    meths = [('DFy', 'L2', 'PDF'), ('DFy', 'L2', 'CDF'), ('DFy', 'L1', 'PDF'), ('DFy', 'HD', 'PDF'), ('HDy', 'HD', 'PDF'),
             ('MMy', 'L1', 'CDF')]
    trip = list(itertools.product(range(r3), repeat=3))
    for nb in (2, 4) if q else (2, 3, 4, 8):
        for m in meths:
            for t in D.thin(trip, (350 if m[1] == 'L2' else 60) if q else 1200):
                yield (3, 4, nb, m, tuple((i,) for i in t))
    trip = list(itertools.product(range(r3), repeat=5))
    for m in meths:
        for t in D.thin(trip, 60 if q else 600):
            yield (3, 4, 8, m, ((t[0], t[1]), (t[2],), (t[3], t[4])))
    r4 = len(D.simplex(4, 2))
    for m in meths[:4]:
        for t in D.thin(itertools.product(range(r4), repeat=4), 40 if q else 400):
            yield (4, 2, 3, m, tuple((i,) for i in t))


def multi_check(case, ob):
    k, d, nb, (cls, dist, df), groups = case
    rows = D.simplex(k, d)
    labels = D.LABELS[k][sum(groups[0]) % len(D.LABELS[k])]
    order = [(c, r) for c in reversed(range(k)) for r in groups[c]]
    y = np.array(labels)[[c for c, _ in order]]
    P = D.mat([rows[r] for _, r in order], d)
    q = make(cls, dist, df, nb, 'equal_width')
    q.fit(np.zeros((len(y), 1)), y, predictions_train=P)
    ob.op()
    cuts = [i / nb for i in range(1, nb)]
    rep = lambda Q: np.concatenate([refs.represent(Q[:, j], cuts, df == 'CDF') for j in range(k)])
    A = np.stack([rep(D.mat([rows[r] for r in g], d)) for g in groups], axis=1)
    R = len(rows)
    for t in ((0,), (1, R - 1), (R // 2, 2, 2, 3)):
        Q = D.mat([rows[r] for r in t], d)
        p = q.predict(None, predictions_test=Q)
        ob.op()
        ob.state(p)
        refs.judge_match(ob, p, A, rep(Q), dist, '%s(%s,%s,%d bins), classes %s, bag %s' % (cls, dist, df, nb, [
            [rows[r] for r in g] for g in groups], [rows[r] for r in t]))


# --- exact mixtures are recovered
def mix_cases(tier):
    q = tier == 'quick'
    for k, d in ((2, 4), (3, 4)) if q else ((2, 10), (3, 6), (4, 4)):
        for a in D.simplex(k, d):
            for mi, m in enumerate(METHODS):
                if k == 2 or m[1] in ('L1', 'L2', 'HD'):
                    for nb in (4, 8):
                        yield (k, d, a, mi, nb)


def mix_check(case, ob):
    k, d, a, mi, nb = case
    cls, dist, df = METHODS[mi]
    # class c: two thirds of its examples are certain, the others spread; distributions affinely independent
    base = []
    for c in range(k):
        sure = [0.0] * k
        sure[c] = 1.0
        mid = [0.5 / (k - 1)] * k
        mid[c] = 0.5
        flat = [1.0 / k] * k
        base.append([sure, mid, flat] if c % 2 == 0 else [sure, sure, mid])
    y = np.array([c for i in range(3) for c in range(k)])
    P = np.array([base[c][i] for i in range(3) for c in range(k)])
    bag = np.array([r for c in range(k) for _ in range(a[c]) for r in base[c]])
    q = make(cls, dist, df, nb, 'equal_width')
    q.fit(np.zeros((len(y), 1)), y, predictions_train=P)
    p = q.predict(None, predictions_test=bag)
    ob.op(2)
    ob.state(p)
    tol = 4e-3 if dist == 'HD' else 2e-3
    ob.distribution(p, k, 'mixture', 1e-5)
    ob.close(p, np.array(a) / d, tol, '%s(%s,%s,%d bins): mixture %s not recovered' % (cls, dist, df, nb, a))


# --- other bin strategies: bins learned from the training predictions
def strat_cases(tier):
    q = tier == 'quick'
    vals = (0.05, 0.2, 0.37, 0.61, 0.93)
    meths = [('DFy', 'L2', 'PDF'), ('DFy', 'l1', 'PDF'), ('DFy', 'HD', 'PDF'), ('MMy', 'L1', 'CDF')]
    ms = [m for n in (1, 2, 3) for m in D.multisets(range(5), n)]
    for st in ('equal_count', 'normal', 'binormal'):
        for m in meths:
            for nb in (2, 3, 8):
                for a, b in D.thin(itertools.product(ms, repeat=2), 40 if q else 500):
                    yield (st, m, nb, a, b)


def strat_check(case, ob):
    st, (cls, dist, df), nb, a, b = case
    vals = (0.05, 0.2, 0.37, 0.61, 0.93)
    y = np.array([2] * len(b) + [1] * len(a))
    v = [vals[i] for i in b] + [vals[i] for i in a]
    cuts = refs.inner_cuts(v, y, (1, 2), nb, st)
    t = (0.01, 0.3, 0.33, 0.7, 0.99)
    if cuts is None:
        q = make(cls, 'L2', df, nb, st)
        q.fit(np.zeros((len(y), 1)), y, predictions_train=np.array([[x, 1 - x] for x in v]))
        ob.distribution(q.predict(None, predictions_test=np.array([[x, 1 - x] for x in t])), 2, 'constant predictions')
        ob.op(2)
        return
    A = np.stack([refs.represent([vals[i] for i in g], cuts, df == 'CDF') for g in (a, b)], axis=1)
    # values that coincide with a cut point up to rounding may fall on either side
    if st != 'equal_count' and refs.margin(v + list(t), cuts) < 1e-9:
        return
    q = make(cls, dist, df, nb, st)
    q.fit(np.zeros((len(y), 1)), y, predictions_train=np.array([[x, 1 - x] for x in v]))
    r, p = call(q.predict, None, np.array([[x, 1 - x] for x in t]))
    ob.op(2)
    if r == 'exc':
        ob.expect(isinstance(p, ValueError) and dist in FUNCS and refs.flat(A, refs.represent(t, cuts, df == 'CDF'),
                                                                            dist), '%s %s: %r', st, case, p)
        return
    ob.state(p)
    refs.judge_match(ob, p, A, refs.represent(t, cuts, df == 'CDF'), dist, '%s(%s,%s,%d %s bins) classes %s' % (
        cls, dist, df, nb, st, (a, b)))


# --- many classes, many examples, many bins
def large_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 5, 8):
        for n in (80, 600):
            for nb in (16, 64, 100):
                for st in ('equal_width', 'equal_count', 'normal') + (('binormal',) if k == 2 else ()):
                    for mi, m in enumerate(METHODS):
                        if k > 2 and m[1] in FUNCS:
                            continue
                        if not q or (mi + nb // 16 + k + n // 80) % 3 == 0 or m[1] == 'L2' and nb == 64:
                            yield (k, n, nb, st, mi)


def large_check(case, ob):
    k, n, nb, st, mi = case
    cls, dist, df = METHODS[mi]
    lab = np.array(large.labels(k, mi % 4))
    d = 65536 if st == 'equal_count' else 64
    reps = 1 + (mi + nb // 8 + k) % 3
    y, P = large.problem(k, n, mi + nb, d, reps)
    cols = range(k) if k > 2 else (0,)
    inner = [refs.inner_cuts(P[:, j], y, range(k), nb, st, (0, 1)) for j in cols]
    rep = lambda Q: np.concatenate([refs.represent(Q[:, j], inner[i], df == 'CDF') for i, j in enumerate(cols)])
    q = make(cls, dist, df, nb, st)
    q.fit(np.zeros((len(y) // reps, 1)), lab[y[:len(y) // reps]], predictions_train=P)
    ob.op()
    A = np.stack([rep(P[y == c]) for c in range(k)], axis=1)
    for m in (1, 30, 700):
        Q = large.bag(k, m, mi, d)
        if min(refs.margin(Z[:, j], inner[i]) for i, j in enumerate(cols) for Z in (P, Q)) < 1e-9 and not (
                st == 'equal_width' and nb in (16, 64)):
            continue        # on a cut point up to rounding
        r, p = call(q.predict, None, predictions_test=Q)
        ob.op()
        what = '%s(%s,%s,%d %s bins) %d classes, %d training examples, bag of %d' % (cls, dist, df, nb, st, k, len(y), m)
        if r == 'exc':
            ob.expect(isinstance(p, ValueError) and dist in FUNCS and refs.flat(A, rep(Q), dist), '%s: %r', what, p)
            continue
        ob.state(p)
        large.judge(ob, p, A, rep(Q), dist, what)


FAMILIES = [
    Family('binary', binary_cases, binary_check, 'every pair of class samples of 1-2 predictions from 6 values, 16 methods'),
    Family('multiclass', multi_cases, multi_check, '3-4 classes, predictions on a grid of the simplex'),
    Family('mixtures', mix_cases, mix_check, 'every mixture on a grid is recovered'),
    Family('strategies', strat_cases, strat_check, 'bins learned from the training predictions'),
    Family('large', large_cases, large_check, '2-8 classes, 80-600 training examples, 16-100 bins, bags of 1-700')]
