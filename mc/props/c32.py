"""C32 ordinal quantifiers: accumulated adjusted counts (ACOrdinal), ordinal scores (PDFOrdinaly) and quantification trees."""
import contextlib
import io
import itertools
from fractions import Fraction as F

import numpy as np
from quantificationlib.estimators.frank_and_hall import FrankAndHallTreeClassifier
from quantificationlib.ordinal.ac_ordinal import ACOrdinal
from quantificationlib.ordinal.pdf import PDFOrdinaly
from quantificationlib.ordinal.trees import OrdinalQuantificationTree

from mc import domains as D, large, refs
from mc.core import Family, call
from mc.props import c20
from mc.props.c07 import interleave
from mc.stubs import Echo, Table

ASSUMPTIONS = ['objective gaps accepted from the solvers: 4e-5 x mass (half squared Hellinger), 1e-5 (L1, L2)',
               'three or more classes']


# --- ACOrdinal --------------------------------------------------------------------------------------------------------
def ac_cases(tier):
    q = tier == 'quick'
    for ns in ((2, 2, 2), (1, 3, 2)) if q else ((2, 2, 2), (1, 3, 2), (3, 3, 3), (4, 1, 3)):
        for rows in D.thin(itertools.product(*[list(D.compositions(n, 3)) for n in ns]), 180 if q else 1000):
            yield (3, rows)
    for rows in D.thin(itertools.product(*[list(D.compositions(n, 4)) for n in (2, 1, 3, 2)]), 120 if q else 1000):
        yield (4, rows)
    for rows in D.thin(itertools.product(*[list(D.compositions(n, 5)) for n in (1, 2, 1, 2, 3)]), 40 if q else 400):
        yield (5, rows)


AC_BAGS = {3: [(1, 0, 0), (0, 1, 1), (2, 1, 1), (0, 3, 1)], 4: [(0, 1, 0, 0), (3, 1, 0, 1), (1, 2, 3, 4)],
           5: [(0, 0, 0, 0, 1), (1, 2, 0, 3, 1)]}


def ac_check(case, ob):
    k, rows = case
    labels = np.array(D.LABELS[k][(sum(rows[0]) + rows[1][0]) % len(D.LABELS[k])])
    ex = interleave([[j for j in range(k) for _ in range(r[j])] for r in rows])
    y = labels[[c for c, _ in ex]]
    pred = labels[[p for _, p in ex]]
    cm = np.array([[v / sum(r) for v in r] for r in rows])
    A = np.cumsum(cm.T, axis=0)
    q = ACOrdinal()
    q.fit(np.zeros((len(y), 1)), y, predictions_train=pred)
    ob.op()
    for t in AC_BAGS[k]:
        tp = labels[[j for j in reversed(range(k)) for _ in range(t[j])]]
        p = q.predict(None, predictions_test=tp)
        ob.op()
        ob.state(p)
        refs.judge_match(ob, p, A, np.cumsum(t) / sum(t), 'L1', 'ACOrdinal, matrix %s, bag %s' % (rows, t))
    # a bag with exactly the predictions that a mixture would produce
    for w in D.thin(D.simplex(k, 3), 4):
        obs = np.array(w, dtype=float).dot(cm) / 3
        n = 1
        while np.abs(obs * n - np.round(obs * n)).max() > 1e-9:
            n += 1
        t = np.round(obs * n).astype(int)
        p = q.predict(None, predictions_test=labels[np.repeat(np.arange(k), t)])
        ob.op()
        if abs(np.linalg.det(cm)) > 1e-3:
            ob.close(p, np.array(w) / 3, 2e-4, 'ACOrdinal, matrix %s: mixture %s not recovered' % (rows, w))
        else:
            refs.judge_match(ob, p, A, np.cumsum(t) / n, 'L1', 'ACOrdinal, singular matrix %s, mixture %s' % (rows, w))


# --- PDFOrdinaly --------------------------------------------------------------------------------------------------------
def winner_rows(k, d):
    """probabilities of two consecutive classes"""
    return sorted({tuple(d - a if c == i else a if c == i + 1 else 0 for c in range(k)) for i in range(k - 1)
                   for a in range(d + 1)})


def score(row, d, method):
    if method == 'full_probabilistic':
        return sum(F((c + 1) * v, d) for c, v in enumerate(row))
    i = min(next(c for c, v in enumerate(row) if v > 0), len(row) - 2)
    return i + 1 + F(row[i + 1], d)


def hist(scores, k, nb):
    n = nb * (k - 1)
    c = [0] * n
    for s in scores:
        c[min(int((s - 1) * nb), n - 1)] += 1
    return np.array(c) / len(scores)


def pdf_cases(tier):
    q = tier == 'quick'
    for k, d in ((3, 4), (4, 2), (5, 2)):
        for method in ('full_probabilistic', 'winner_node'):
            rows = D.simplex(k, d) if method == 'full_probabilistic' else winner_rows(k, d)
            R = range(len(rows))
            groups = [tuple(tuple(R[(a + i * b + c * s) % len(rows)] for i in range(1 + (c + a) % 3)) for c in range(k))
                      for a in R for b in (1, 3) for s in (1, 2, 5)]
            for dist in ('L2', 'EMD', 'HD'):
                n = {'L2': 60, 'EMD': 40, 'HD': 25}[dist] if q else 1000
                for i, g in enumerate(D.thin(groups, n)):
                    for nb in (1, 2, 3, 4, 8):
                        if not q or (nb + i) % 2 == 0:
                            yield (k, d, method, dist, nb, g)


def pdf_check(case, ob):
    k, d, method, dist, nb, groups = case
    rows = D.simplex(k, d) if method == 'full_probabilistic' else winner_rows(k, d)
    labels = np.array(D.LABELS[k][(sum(groups[0]) + nb) % len(D.LABELS[k])])
    ex = interleave([list(g) for g in groups])
    P = D.mat([rows[r] for _, r in ex], d)
    A = np.stack([hist([score(rows[r], d, method) for r in g], k, nb) for g in groups], axis=1)
    q = PDFOrdinaly(n_bins=nb, distance=dist, method=method)
    q.fit(np.zeros((len(ex), 1)), labels[[c for c, _ in ex]], predictions_train=P)
    ob.op()
    R = len(rows)
    mix = tuple(r for g in groups for r in g)
    for bag in ((0,), (R - 1, R // 2), (1, 2, R // 3, R - 2, R - 2), mix):
        p = q.predict(None, predictions_test=D.mat([rows[r] for r in bag], d))
        ob.op()
        ob.state(p)
        t = hist([score(rows[r], d, method) for r in bag], k, nb)
        what = 'PDFOrdinaly(%s,%s,%d bins) rows of the classes %s, bag %s' % (method, dist, nb, groups, bag)
        if dist == 'EMD':
            refs.judge_match(ob, p, np.cumsum(A, axis=0)[:-1], np.cumsum(t)[:-1], 'L1', what)
        else:
            refs.judge_match(ob, p, A, t, dist, what)


# --- rounding: probabilities that are certain up to the last bit count as certain
def round_cases(tier):
    e = 1.1e-16
    rows = [(e, e, 1.0), (1 - e, 0, 0), (1.0, -0.0, 0.0), (0.0, 0.0, 1 + 2 * e), (1 - e, e / 2, 0), (e, 1 - e, e)]
    for n in (1, 2, 3):
        for b in itertools.combinations_with_replacement(range(len(rows)), n):
            for dist in ('L2', 'EMD', 'HD'):
                for where in ('train', 'test'):
                    yield ([rows[i] for i in b], dist, where)


def round_check(case, ob):
    bag, dist, where = case
    pure = np.eye(3)
    near = np.array(bag)
    exact = np.round(near)
    if where == 'train':
        P = [np.concatenate([pure, m]) for m in (near, exact)]
        y = np.array([0, 1, 2] + [int(r.argmax()) for r in exact])
        T = [np.array([[0.5, 0.5, 0], [0, 0, 1]])] * 2
    else:
        P, y, T = [pure] * 2, np.arange(3), [near, exact]
    ps = []
    for tr, te in zip(P, T):
        q = PDFOrdinaly(distance=dist).fit(None, y, predictions_train=tr)
        ps.append(q.predict(None, predictions_test=te))
        ob.op(2)
        ob.state(ps[-1])
    if where == 'test':
        ob.close(ps[0], exact.mean(axis=0), 4e-3 if dist == 'HD' else 1e-4, 'PDFOrdinaly(%s): bag %s' % (dist, bag))
    ob.close(ps[0], ps[1], 1e-4, 'PDFOrdinaly(%s): bag %s, probabilities exact or up to rounding (%s)' % (dist, bag, where))


# --- quantification trees -------------------------------------------------------------------------------------------------
def tree_cases(tier):
    q = tier == 'quick'
    for k, n in ((3, 4), (3, 5), (4, 5), (5, 6)) if q else ((3, 4), (3, 5), (3, 6), (4, 5), (4, 6), (5, 6), (5, 7)):
        for y in D.thin(D.surjections(n, k), 60 if q else 600):
            for how in ('estimator', 'tree', 'fitted', 'predictions'):
                yield (k, y, how)


def tree_check(case, ob):
    k, y, how = case
    labels = np.array(D.LABELS[k][sum(y) % len(D.LABELS[k])])
    n = len(y)
    X = np.array(c20.PTS[:n])
    ms = [Echo().fit(X, np.array([1 if c <= i else 0 for c in y])) for i in range(k - 1)]
    left = lambda M: np.array([m.predict_proba(M)[:, 1] for m in ms]).T.tolist()
    est = Echo() if how in ('estimator', 'predictions') else FrankAndHallTreeClassifier(Echo())
    if how == 'fitted':
        est.fit(X, labels[list(y)])
    q = OrdinalQuantificationTree(est)
    with contextlib.redirect_stdout(io.StringIO()):
        q.fit(X, labels[list(y)])
    ob.op()
    for Z in (np.array(c20.NEW), X, X[:1]):
        if how == 'predictions':
            P = np.array(left(Z))
            P = np.concatenate([P, np.ones((len(P), 1))], axis=1)
            P = P / P.sum(axis=1, keepdims=True)
            p = q.predict(None, predictions_test=P)
            want = P.mean(axis=0)
        else:
            p = q.predict(Z)
            try:
                want = np.mean(c20.expected('tree', left(X), left(Z), y, k, 'kld'), axis=0)
            except ArithmeticError:
                ob.distribution(p, k, 'tree with ties', 1e-9)
                continue
        ob.op()
        ob.state(p)
        ob.close(p, want, 1e-9, 'quantification tree (%s), labels %s, bag %s' % (how, y, Z.tolist()))


# --- through classifiers: training representation from one estimator, bag from the other; refusals
def est_cases(tier):
    n = 4
    for tr in D.thin(itertools.product(range(6), repeat=n), 40 if tier == 'quick' else 400):
        for te in ((0, 5), (1, 3, 4)):
            yield (tr, te)


def est_check(case, ob):
    tr, te = case
    rows = D.simplex(3, 2)
    Ptr, Pte = D.mat([rows[i] for i in tr], 2), D.mat([rows[i] for i in te], 2)
    y = np.array([5, 9, 3, 5])
    X = np.arange(4, dtype=float).reshape(-1, 1)
    Z = np.arange(len(te), dtype=float).reshape(-1, 1)
    mk = lambda **kw: [ACOrdinal(**kw)] + [PDFOrdinaly(distance=d, method=m, n_bins=2, **kw) for d in ('L2', 'EMD', 'HD')
                                           for m in ('full_probabilistic', 'winner_node')]
    for a, b in zip(mk(estimator_train=Table(Ptr.tolist()), estimator_test=Table(Pte.tolist())), mk()):
        a.fit(X, y)
        b.fit(X, y, predictions_train=Ptr)
        pa, pb = a.predict(Z), b.predict(None, predictions_test=Pte)
        ob.op(4)
        ob.state(pa)
        ob.close(pa, pb, 1e-6, '%r with classifiers or with their predictions' % a)


def refuse_cases(tier):
    return [('classes', 2), ('classes', 1), ('method', 0), ('distance', 0)]


def refuse_check(case, ob):
    what, n = case
    P = np.eye(3)[[0, 1, 2, 0]]
    y = np.array([0, 1, 2, 0]) if what != 'classes' else np.array([0, n - 1, 0, n - 1])
    q = PDFOrdinaly(method='other' if what == 'method' else 'full_probabilistic', distance='other' if what == 'distance' else 'L2')
    P = P if what != 'classes' else np.eye(n)[y]
    r, e = call(q.fit, None, y, predictions_train=P)
    if r == 'ok':
        r, e = call(q.predict, None, predictions_test=P)
    ob.op(2)
    ob.expect(r == 'exc' and isinstance(e, (TypeError, ValueError)), '%s not refused: %r', case, e)


# --- many classes and examples
def large_cases(tier):
    q = tier == 'quick'
    for k in (3, 6, 10):
        for n in (60, 400):
            for seed in range(2 if q else 10):
                yield ('ac', k, n, '', '', 0, seed)
                yield ('tree', k, n, '', '', 0, seed)
                for method in ('full_probabilistic', 'winner_node'):
                    for dist in ('L2', 'EMD', 'HD'):
                        for nb in (8, 32):
                            yield ('pdf', k, n, method, dist, nb, seed)


def large_check(case, ob):
    m, k, n, method, dist, nb, seed = case
    labels = np.array(large.labels(k, seed % 4))
    reps = 1 + (seed + k + n // 60) % 3
    y, P = large.problem(k, n, seed, reps=reps)
    what = '%s %d classes, %d training examples, ' % (case[:6], k, len(y))
    if m == 'tree':
        y, X = large.features(k, n, 2, seed)
        ms = [Echo().fit(X, (y <= i).astype(int)) for i in range(k - 1)]
        left = lambda M: np.array([e.predict_proba(M)[:, 1] for e in ms]).T.tolist()
        q = OrdinalQuantificationTree(Echo())
        with contextlib.redirect_stdout(io.StringIO()):
            q.fit(X, labels[y])
        for b in (1, 120):
            Z = large.feature_bag(k, b, 2, seed) + 0.3
            try:
                want = np.mean(c20.expected('tree', left(X), left(Z), y.tolist(), k, 'kld'), axis=0)
            except ArithmeticError:
                return
            p = q.predict(Z)
            ob.op(2)
            ob.state(p)
            ob.close(p, want, 1e-9, what + 'bag of %d' % b)
        return
    if m == 'ac':
        q, A = ACOrdinal(), np.cumsum(np.stack([np.eye(k)[P[y == c].argmax(axis=1)].mean(axis=0) for c in range(k)], axis=1), axis=0)
        pred, rep = (lambda M: labels[M.argmax(axis=1)]), (lambda M: np.cumsum(np.eye(k)[M.argmax(axis=1)].mean(axis=0)))
    else:
        def near(M):
            """winner node: the probabilities of the two consecutive classes of the last model"""
            i = [min(int(r.argmax()), k - 2) for r in M]
            return np.array([[0.0] * j + [r[j] / (r[j] + r[j + 1]), r[j + 1] / (r[j] + r[j + 1])] + [0.0] * (k - j - 2)
                             if r[j] + r[j + 1] > 0 else np.eye(k)[j] for r, j in zip(M, i)])

        def sc(r):
            if method == 'full_probabilistic':
                return float((np.arange(1, k + 1) * r).sum())
            i = min(int(np.where(r > 0)[0][0]), k - 2)
            return i + 1 + float(r[i + 1])

        def rep(M):
            v = [sc(r) for r in pred(M)]
            f = np.array(v) * nb
            if (abs(f - np.round(f)) < 1e-9).any() and (method == 'winner_node'):
                exact.append(all(abs(a - round(a)) > 1e-9 or a == round(a) for a in f))
            h = np.bincount([min(int((a - 1) * nb), nb * (k - 1) - 1) for a in v], minlength=nb * (k - 1)) / len(v)
            return np.cumsum(h)[:-1] if dist == 'EMD' else h

        exact = []
        pred = (lambda M: M) if method == 'full_probabilistic' else near
        q = PDFOrdinaly(n_bins=nb, distance=dist, method=method)
        A = np.stack([rep(P[y == c]) for c in range(k)], axis=1)
    q.fit(np.zeros((len(y) // reps, 1)), labels[y[:len(y) // reps]], predictions_train=pred(P))
    ob.op()
    for b in (1, 30, 500):
        B = large.bag(k, b, seed)
        t = rep(B)
        if m == 'pdf' and not all(exact):
            ob.state('ambiguous')
            return
        p = q.predict(None, predictions_test=pred(B))
        ob.op()
        ob.state(p)
        large.judge(ob, p, A, t, 'L1' if m == 'ac' or dist == 'EMD' else dist, what + 'bag of %d' % b)


FAMILIES = [
    Family('ac', ac_cases, ac_check, 'misclassification matrices of small training sets, 3-5 classes, several bags and mixtures'),
    Family('pdf', pdf_cases, pdf_check, '3-5 classes, 1-3 examples per class on a grid of probabilities, two scores, three '
           'distances, 1-8 bins'),
    Family('rounding', round_cases, round_check, 'probabilities that are certain up to rounding errors'),
    Family('trees', tree_cases, tree_check, '3-5 classes, labellings of 4-7 examples, four ways of giving the classifier'),
    Family('classifiers', est_cases, est_check, 'different classifiers for training set and bag'),
    Family('refusals', refuse_cases, refuse_check, 'problems and parameters that cannot be used'),
    Family('large', large_cases, large_check, '3-10 classes, 60-400 examples, 8-32 bins, bags of 1-500')]
