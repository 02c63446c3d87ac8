"""C09 distribution matching on the input features (DFX, HDX)."""
import itertools

import numpy as np
from quantificationlib.metrics import multiclass as M
from quantificationlib.multiclass.df import DFX, HDX

from mc import domains as D, large, refs
from mc.core import Family, call

ASSUMPTIONS = ['objective gaps accepted from the solvers: 4e-5 x mass (half squared Hellinger), 1e-5 (L1, L2); 1-D '
               'searches within 2e-4 of the prevalence']
FUNCS = {'hd': M.hd, 'l1': M.l1, 'l2': M.l2, 'topsoe': M.topsoe}
METHODS = [('DFX', d, f) for f in ('PDF', 'CDF') for d in ('L2', 'HD', 'L1', 'l2', 'hd', 'topsoe')] + [('HDX', 'HD', 'PDF')]


def make(cls, dist, df, nb, st):
    if cls == 'HDX':
        return HDX(n_bins=nb, bin_strategy=st)
    return DFX(distribution_function=df, n_bins=nb, bin_strategy=st, distance=FUNCS.get(dist, dist))


POINTS = [(0, 0), (1, 5), (2, 1), (4, 3)]          # training examples (two features, different ranges)
BAGS = [[(0, 0), (1, 5)], [(2, 1)], [(-3, 9), (7, -1), (2, 2)], [(4, 5), (0, 0), (1, 1), (1, 1), (3, 2)]]


def space(k, q):
    one = D.multisets(range(len(POINTS)), 1)
    two = D.multisets(range(len(POINTS)), 2)
    if k == 2:
        return list(itertools.product(one + two, repeat=2))
    if k == 3:
        return list(itertools.product(two, one, one)) + list(itertools.product(one, two, one))[:10]
    return list(itertools.product(one, repeat=k))


def cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4):
        sp = space(k, q)
        for m in METHODS:
            if k > 2 and m[1] in FUNCS:
                continue
            for nf in (1, 2):
                for nb in (2, 4, 8):
                    for st in ('equal_width', 'equal_count', 'normal') + (('binormal',) if k == 2 else ()):
                        n = (8 if m[1] != 'L2' else 25) if q else 100
                        if st != 'equal_width':
                            n = max(2, n // 4)
                        for g in D.thin(sp, n):
                            yield (k, m, nf, nb, st, g)


def check(case, ob):
    k, (cls, dist, df), nf, nb, st, groups = case
    labels = D.LABELS[k][(sum(groups[0]) + nb) % len(D.LABELS[k])]
    order = [(c, i) for c in reversed(range(k)) for i in groups[c]]
    y = np.array(labels)[[c for c, _ in order]]
    X = np.array([POINTS[i][:nf] for _, i in order], dtype=float)
    cuts = [refs.inner_cuts(X[:, f], [c for c, _ in order], range(k), nb, st) for f in range(nf)]
    if any(c is None for c in cuts) or (st != 'equal_count' and len(set(X[:, 0])) < 2):
        return
    rep = lambda Z: np.concatenate([refs.represent(np.asarray(Z, dtype=float)[:, f], cuts[f], df == 'CDF')
                                    for f in range(nf)])
    A = np.stack([rep([POINTS[i] for i in g]) for g in groups], axis=1)
    q = make(cls, dist, df, nb, st)
    q.fit(X, y)
    ob.op()
    for b in BAGS:
        B = np.array([v[:nf] for v in b], dtype=float)
        if st != 'equal_count' and any(refs.margin(list(B[:, f]) + list(X[:, f]), cuts[f]) < 1e-9 for f in range(nf)):
            if st != 'equal_width' or nb not in (2, 4, 8) or any((X[:, f].max() - X[:, f].min()) not in (1, 2, 4)
                                                                 for f in range(nf)):
                continue    # a value on a cut point that is not exact in floating point
        r, p = call(q.predict, B)
        ob.op()
        t = rep(B)
        what = '%s(%s,%s,%d %s bins) classes %s, bag %s' % (cls, dist, df, nb, st,
                                                            [[POINTS[i][:nf] for i in g] for g in groups], B.tolist())
        if r == 'exc':
            ob.expect(isinstance(p, ValueError) and dist in FUNCS and refs.flat(A, t, dist), '%s: %r', what, p)
            continue
        ob.state(p)
        refs.judge_match(ob, p, A, t, dist, what)


# --- every mixture of the training classes is recovered, any number of features
def mix_cases(tier):
    q = tier == 'quick'
    for k, d in ((2, 4), (3, 3)) if q else ((2, 10), (3, 6), (4, 4)):
        for a in D.simplex(k, d):
            for m in METHODS:
                if k == 2 or m[1] not in FUNCS:
                    for nb in (4, 8, 9):
                        yield (k, d, a, m, nb)


def mix_check(case, ob):
    k, d, a, (cls, dist, df), nb = case
    base = [[(2 * c, 3 * ((c + j) % k)) for j in range(2)] + [(7, -2 * c)] for c in range(k)]
    X = np.array([base[c][i] for i in range(3) for c in range(k)], dtype=float)
    y = np.array([c for i in range(3) for c in range(k)])
    bag = np.array([r for c in range(k) for _ in range(a[c]) for r in base[c]], dtype=float)
    q = make(cls, dist, df, nb, 'equal_width')
    q.fit(X, y)
    p = q.predict(bag)
    ob.op(2)
    ob.state(p)
    ob.close(p, np.array(a) / d, 4e-3 if dist == 'HD' else 2e-3, '%s(%s,%s,%d): mixture %s not recovered' % (
        cls, dist, df, nb, a))


# --- many classes, features, examples and bins
def large_cases(tier):
    q = tier == 'quick'
    for k in (2, 4, 8):
        for n in (80, 500):
            for nf in (1, 3, 12):
                for nb in (8, 32, 60):
                    for st in ('equal_width', 'equal_count', 'normal') + (('binormal',) if k == 2 else ()):
                        for mi, m in enumerate(METHODS):
                            if k > 2 and m[1] in FUNCS:
                                continue
                            if not q or (mi + nb // 8 + k + n // 80 + nf) % 7 == 0:
                                yield (k, n, nf, nb, st, mi)


def large_check(case, ob):
    k, n, nf, nb, st, mi = case
    cls, dist, df = METHODS[mi]
    lab = np.array(large.labels(k, mi % 4))
    y, X = large.features(k, n, nf, mi + nb)
    X += (np.arange(nf) % 2) * 0.37
    cuts = [refs.inner_cuts(X[:, f], y, range(k), nb, st) for f in range(nf)]
    rep = lambda Q: np.concatenate([refs.represent(Q[:, f], cuts[f], df == 'CDF') for f in range(nf)])
    q = make(cls, dist, df, nb, st)
    q.fit(X, lab[y])
    ob.op()
    A = np.stack([rep(X[y == c]) for c in range(k)], axis=1)
    for m in (1, 30, 400):
        B = large.feature_bag(k, m, nf, mi) + 0.0625
        if st == 'equal_count':
            B += 0.01
        if any(abs(v - c) < 1e-9 for f in range(nf) for c in cuts[f] for v in set(B[:, f]) | set(X[:, f])) and st != 'equal_count':
            continue
        r, p = call(q.predict, B)
        ob.op()
        what = '%s(%s,%s,%d %s bins) %d classes, %d features, %d training examples, bag of %d' % (
            cls, dist, df, nb, st, k, nf, len(y), m)
        if r == 'exc':
            ob.expect(isinstance(p, ValueError) and dist in FUNCS and refs.flat(A, rep(B), dist), '%s: %r', what, p)
            continue
        ob.state(p)
        large.judge(ob, p, A, rep(B), dist, what)


FAMILIES = [
    Family('features', cases, check, '2-4 classes, 1-2 features, values inside and outside the training range, every '
           'method, binning strategy and number of bins'),
    Family('mixtures', mix_cases, mix_check, 'every mixture on a grid is recovered'),
    Family('large', large_cases, large_check, '2-8 classes, 1-12 features, 80-500 training examples, 8-60 bins')]
