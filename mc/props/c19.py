"""C19 cross-validated estimator: out-of-fold predictions for the training set, combination of the folds for other data."""
import itertools

import numpy as np
from sklearn.exceptions import NotFittedError
from quantificationlib.estimators.cross_validation import CV_estimator

from mc import domains as D, large
from mc.core import Family, call
from mc.stubs import Echo

ASSUMPTIONS = ['cross-validation strategies that test each example once per repetition']


class Splits:
    """a cross-validation strategy decided by the harness"""

    def __init__(self, folds):
        self.folds = folds

    def split(self, X, y=None, groups=None):
        n = len(X)
        for f in self.folds:
            yield np.array([i for i in range(n) if i not in f]), np.array(f)

    def get_n_splits(self, X=None, y=None, groups=None):
        return len(self.folds)


def partitions(items, parts):
    """partitions of the items in the given number of (unordered) blocks"""
    if not items:
        yield [[] for _ in range(parts)]
        return
    for p in partitions(items[1:], parts):
        for i in range(parts):
            q = [list(b) for b in p]
            q[i].insert(0, items[0])
            yield q
            if not p[i]:
                break


def folds(n, y, nf):
    res = []
    for p in partitions(list(range(n)), nf):
        p = [b for b in p]
        if all(p) and all({y[i] for i in range(n) if i not in b} == set(y) for b in p):
            res.append(tuple(tuple(b) for b in p))
    return res


Y = {2: [(0, 1, 0, 1), (1, 1, 0, 0, 1)], 3: [(0, 1, 2, 0, 1, 2), (2, 1, 0, 0, 1, 2)]}
XS = [(0.0,), (1.0,), (2.5,), (4.0,), (7.0,), (7.5,)]
NEW = [(0.4,), (3.0,), (6.0,), (20.0,)]


def cases(tier):
    q = tier == 'quick'
    for k in (2, 3):
        for yi, y in enumerate(Y[k]):
            sp = [(f,) for nf in (2, 3) for f in folds(len(y), y, nf)]
            two = folds(len(y), y, 2)
            sp += [(a, b) for a in D.thin(two, 6) for b in D.thin(two, 6)]        # repeated cross-validation
            sp += [(a, b, a) for a in D.thin(two, 3) for b in D.thin(two, 3)]
            for f in D.thin(sp, 90 if q else 1000):
                for avg in (True, False):
                    for voting in ('hard', 'soft'):
                        yield (k, yi, f, avg, voting)


def first_max(v):
    return max(range(len(v)), key=lambda i: (v[i], -i))


def check(case, ob):
    k, yi, reps, avg, voting = case
    yy = Y[k][yi]
    labels = D.LABELS[k][(len(reps) + len(reps[0])) % len(D.LABELS[k])]
    n = len(yy)
    y = np.array(labels)[list(yy)]
    X = np.array(XS[:n])
    fs = [f for r in reps for f in r]
    kind = (len(fs) + yi) % 2        # strategy object or list of splits
    cv = Splits(fs) if kind else list(Splits(fs).split(X))
    e = CV_estimator(Echo(), cv=cv, averaged_predictions=avg, voting=voting)
    for f in (e.predict, e.predict_proba):
        st, r = call(f, X)
        ob.expect(st == 'exc' and isinstance(r, NotFittedError), 'not fitted: %r', r)
    e.fit(X, y)
    ob.op()
    ob.expect(list(e.classes_) == list(labels), 'classes_ %s', e.classes_)
    models = []
    for f in fs:
        tr = [i for i in range(n) if i not in f]
        models.append(Echo().fit(X[tr], y[tr]))
    # training set: each example predicted by the model that has not seen it, once per repetition
    ref = []
    j = 0
    for r in reps:
        P = np.zeros((n, k))
        for f in r:
            P[list(f)] = models[j].predict_proba(X[list(f)])
            j += 1
        ref.append(P)
    judge(ob, e, X, ref, labels, avg, voting, 'training set ' + str(case))
    Z = np.array(NEW)
    judge(ob, e, Z, [m.predict_proba(Z) for m in models], labels, avg, voting, 'new data ' + str(case))
    sub = X[:2]
    judge(ob, e, sub, [m.predict_proba(sub) for m in models], labels, avg, voting, 'part of the training set ' + str(case))
    # asking again, or for a copy, changes nothing
    judge(ob, e, X.copy(), ref, labels, avg, voting, 'training set again ' + str(case))


def judge(ob, e, Z, ref, labels, avg, voting, what):
    P = e.predict_proba(Z)
    L = e.predict(Z)
    ob.op(2)
    m = len(Z)
    ob.state(P, list(L))
    if not avg:
        want = np.vstack(ref)
        ob.close(P, want, 1e-12, what)
        wl = [labels[first_max(r)] for r in want.tolist()]
    else:
        mean = sum(ref) / len(ref)
        ob.close(P, mean, 1e-12, what)
        if voting == 'soft':
            srt = np.sort(mean, axis=1)
            if (srt[:, -1] - srt[:, -2]).min() < 1e-9:
                return
            wl = [labels[first_max(r)] for r in mean.tolist()]
        else:
            for R in ref:
                srt = np.sort(R, axis=1)
                if (srt[:, -1] - srt[:, -2]).min() < 1e-9:
                    return
            votes = [[sum(first_max(R[i].tolist()) == c for R in ref) for c in range(len(labels))] for i in range(m)]
            wl = [labels[first_max(v)] for v in votes]
    ob.expect([str(v) for v in L] == [str(v) for v in wl] and len(L) == len(wl), '%s: predict %s, expected %s', what, list(L), wl)


# --- the default strategies of scikit-learn
def def_cases(tier):
    q = tier == 'quick'
    for k in (2, 3):
        for cv in (None, 2, 3, 5):
            for start in range(6 if q else 24):
                for avg in (True, False):
                    yield (k, cv, start, avg)


def def_check(case, ob):
    from sklearn.model_selection import StratifiedKFold
    k, cv, start, avg = case
    rot = list(itertools.permutations(range(k)))
    labels = D.LABELS[k][start % len(D.LABELS[k])]
    base = [c for _ in range(5) for c in rot[start % len(rot)]]
    yy = base[start % k:] + base[:start % k]
    y = np.array(labels)[yy]
    n = len(y)
    X = np.array([[float((7 * i + start) % 31), float(i % 3)] for i in range(n)])
    e = CV_estimator(Echo(), cv=cv, averaged_predictions=avg).fit(X, y)
    ob.op()
    ref = np.zeros((n, k))
    sp = list(StratifiedKFold(5 if cv is None else cv).split(X, y))
    for tr, te in sp:
        ref[te] = Echo().fit(X[tr], y[tr]).predict_proba(X[te])
    judge(ob, e, X, [ref], labels, avg, 'hard', 'training set ' + str(case))
    Z = X[:5] + 0.25
    judge(ob, e, Z, [Echo().fit(X[tr], y[tr]).predict_proba(Z) for tr, _ in sp], labels, avg, 'hard', 'new ' + str(case))
    # refitting forgets the previous training set
    y2 = np.array(labels)[yy[::-1]]
    X2 = X[:, ::-1].copy()
    e.fit(X2, y2)
    ref = np.zeros((n, k))
    sp = list(StratifiedKFold(5 if cv is None else cv).split(X2, y2))
    for tr, te in sp:
        ref[te] = Echo().fit(X2[tr], y2[tr]).predict_proba(X2[te])
    judge(ob, e, X2, [ref], labels, avg, 'hard', 'second training set ' + str(case))
    judge(ob, e, X, [Echo().fit(X2[tr], y2[tr]).predict_proba(X) for tr, _ in sp], labels, avg, 'hard', 'first set ' + str(case))


# --- many examples, classes and folds
def large_cases(tier):
    for k in (2, 5, 9):
        for n in (60, 300):
            for cv in (None, 2, 7, 10, 'repeated', 'shuffled'):
                for avg in (True, False):
                    for voting in ('hard', 'soft'):
                        for seed in range(1 if tier == 'quick' else 40):
                            if not isinstance(cv, int) or n // k >= cv:  # every class in every fold
                                yield (k, n, cv, avg, voting, seed)


def large_check(case, ob):
    from sklearn.model_selection import RepeatedStratifiedKFold, StratifiedKFold
    k, n, cv, avg, voting, seed = case
    g = large.Gen(seed + n + k)
    labels = large.labels(k, (seed + n // 60) % 4)
    yi = np.array(g.shuffle([c % k for c in range(n)]))
    X = np.array([[g(997) / 7.0 + 10 * (c % 3), g(97) / 3.0] for c in yi])
    nf = 5 if cv is None else 4 if cv == 'repeated' else 6 if cv == 'shuffled' else cv
    obj = {'repeated': lambda: RepeatedStratifiedKFold(n_splits=4, n_repeats=3, random_state=seed),
           'shuffled': lambda: StratifiedKFold(6, shuffle=True, random_state=seed)}.get(cv, lambda: cv)()
    e = CV_estimator(Echo(), cv=obj, averaged_predictions=avg, voting=voting).fit(X, np.array(labels)[yi])
    ob.op()
    sp = list((obj if hasattr(obj, 'split') else StratifiedKFold(nf)).split(X, yi))
    models = [Echo().fit(X[tr], yi[tr]) for tr, _ in sp]
    ref = []
    for r in range(0, len(sp), nf):
        P = np.zeros((n, k))
        for (_, te), mo in zip(sp[r:r + nf], models[r:r + nf]):
            P[te] = mo.predict_proba(X[te])
        ref.append(P)
    judge(ob, e, X, ref, labels, avg, voting, 'training set ' + str(case))
    for m in (1, 40, n):
        Z = np.array([[g(997) / 7.0, g(97) / 3.0] for _ in range(m)])
        judge(ob, e, Z, [mo.predict_proba(Z) for mo in models], labels, avg, voting, '%d new examples %s' % (m, case))
    judge(ob, e, X, ref, labels, avg, voting, 'training set again ' + str(case))


FAMILIES = [
    Family('partitions', cases, check, 'every partition in 2-3 folds of 4-6 examples, repeated 1-3 times, 2-3 classes'),
    Family('strategies', def_cases, def_check, 'default strategies of scikit-learn and refits'),
    Family('large', large_cases, large_check, '2-9 classes, 60-300 examples, 2-10 folds, repeated and shuffled')]
