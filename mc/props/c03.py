"""C03 a bag is a multiset and the arrays of the user are not modified."""
import itertools

import numpy as np
from quantificationlib.bag_generator import (BagGenerator, CovariateShift_BagGenerator, PriorAndCovariateShift_BagGenerator,
                                             PriorShift_BagGenerator)
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.estimators.weighted_knn import PWK
from quantificationlib.ordinal.trees import OrdinalQuantificationTree
from sklearn.model_selection import StratifiedKFold
from sklearn.multiclass import OneVsRestClassifier

from mc import domains as D, zoo
from mc.core import Family, call
from mc.props.c02 import build
from mc.stubs import Echo

ASSUMPTIONS = ['probabilities are multiples of 1/4, so averages do not depend on the order of the sums',
               'joint rankings (CvMy) are not invariant to replication; neighbours at the same distance and generated bags '
               'depend on the order of the training examples']
TOL = {'closed': 1e-9, 'L2': 2e-5, 'L1': 1e-4, 'HD': 4e-4, 'search': 3e-4, 'reg': 1e-8}


def same(ob, got, want, tol, what):
    if isinstance(got, str) or isinstance(want, str):
        ob.expect(isinstance(got, str) and isinstance(want, str) and got == want, '%s: %s, expected %s', what, got, want)
    else:
        ob.close(got, want, tol, what)


def answer(s, q, labels, P):
    r, p = call(s.predict, q, labels, P)
    return type(p).__name__ if r == 'exc' else np.asarray(p, dtype=float)


def pool(k, q):
    if k == 2:
        return zoo.problems(2, 4, 3, 12 if q else 150) + zoo.problems(2, 4, 5, 8 if q else 100)
    if k == 3:
        return zoo.problems(3, 2, 4, 8 if q else 80) + zoo.problems(3, 4, 5, 6 if q else 80)
    return zoo.problems(4, 2, 5, 4 if q else 40)


def degenerate(s, k):
    """configurations with several solutions even on the problems of build()"""
    return (s.name.endswith(('-1', '-2')) and ('equal_count' in s.name or 'normal' in s.name)
            or k == 4 and s.name.startswith(('DFy-equal_count', 'DFX-equal_count', 'FriedmanME')))


def problems_of(s, k, q):
    """methods with a closed formula: any problem; optimisations: problems with only one solution"""
    if s.loss in ('closed', 'reg'):
        return [('any', k) + c[1:] for c in pool(k, q)]
    if degenerate(s, k):
        return []
    n = len(D.simplex(k, 4))
    m = (4 if s.slow else 8) if q else (16 if s.slow else 60)
    return [('posed', k, tuple((i * (c + 2) + c * c + i // n) % n for c in range(k)), (1, 2, 1, 1)[:k] if i % 2 else (1,) * k)
            for i in range(m)]


def problem(p):
    """(k, labels, rows, rows of the bags, d)"""
    if p[0] == 'any':
        _, k, d, y, r = p
        R = zoo.rows(k, d)
        return k, list(y), R[list(r)], R
    _, k, noise, mult = p
    R = zoo.rows(k, 4)
    y, P = build(k, noise, mult, 4)
    return k, y, P, R


def make_bags(s, k, y, P, R):
    n = len(R)
    if s.loss == 'search':     # only mixtures of the training classes have a unique minimum
        part = [P[[i for i in range(len(y)) if y[i] == c]][:3] for c in range(k)]
        return [part[0], np.vstack(part), np.vstack([part[0], part[0], part[1]])]
    return [R[[i % n for i in b]] for b in ((0, n // 2), (0, 1, n - 1), (n // 3, n // 3, n - 1), (1, 2, n - 2, n // 2))]


# --- order and replication of the bag
def bag_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4):
        for s in zoo.SPECS:
            if s.kmin <= k <= s.kmax:
                for c in problems_of(s, k, q):
                    yield (s.name,) + c


def bag_check(case, ob):
    s = zoo.BY_NAME[case[0]]
    k, y, P, R = problem(case[1:])
    labels = D.LABELS[k][(len(y) + y[0]) % len(D.LABELS[k])]
    q = s.make()
    s.fit(q, labels, y, P)
    ob.op()
    for bag in make_bags(s, k, y, P, R):
        m = len(bag)
        ref = answer(s, q, labels, bag)
        ob.op()
        ob.state(ref)
        if m <= 4:
            orders = D.perms(m)[1:]
        else:
            orders = [tuple((i * a + o) % m for i in range(m)) for a in range(1, m) if np.gcd(a, m) == 1 for o in range(m)][1:]
        for o in D.thin(orders, 4 if s.slow else 12):
            same(ob, answer(s, q, labels, bag[list(o)]), ref, TOL[s.loss],
                 '%s, training labels %s rows %s, bag %s in the order %s' % (s.name, y, P.tolist(), bag.tolist(), o))
            ob.op()
        if s.name != 'CvMy':
            for rep, b2 in ((2, np.vstack([bag] * 2)), (3, np.repeat(bag, 3, axis=0))):
                same(ob, answer(s, q, labels, b2), ref, TOL[s.loss],
                     '%s, training labels %s rows %s, bag %s repeated %d times' % (s.name, y, P.tolist(), bag.tolist(), rep))
                ob.op()


# --- order of the training set
def train_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4):
        for s in zoo.SPECS:
            if s.kmin <= k <= s.kmax and not s.name.startswith(('PWK', 'REG', 'EoQ')):
                for c in problems_of(s, k, q):
                    yield (s.name,) + c


def train_check(case, ob):
    s = zoo.BY_NAME[case[0]]
    k, y, P, R = problem(case[1:])
    labels = D.LABELS[k][(len(y) + y[0]) % len(D.LABELS[k])]
    n = len(y)
    orders = D.perms(n) if n <= 5 else [tuple((i * m + o) % n for i in range(n)) for m in range(1, n) if np.gcd(m, n) == 1
                                        for o in range(n)]
    bags = make_bags(s, k, y, P, R)[:3]
    ref = None
    for o in [orders[0]] + D.thin(orders[1:], 4 if s.slow else 12):
        q = s.make()
        s.fit(q, labels, [y[i] for i in o], P[list(o)])
        ob.op()
        got = [answer(s, q, labels, b) for b in bags]
        ob.op(len(bags))
        ob.state(got)
        if ref is None:
            ref = got
        for b, g, w in zip(bags, got, ref):
            same(ob, g, w, TOL[s.loss], '%s, training labels %s rows %s in the order %s, bag %s' % (
                s.name, list(y), P.tolist(), o, b.tolist()))


# --- nothing of the user is modified
def frozen(*arrays):
    for a in arrays:
        a.flags.writeable = False
    return [a.copy() for a in arrays]


def unchanged(ob, arrays, copies, what):
    for a, c in zip(arrays, copies):
        ob.expect(a.dtype == c.dtype and a.shape == c.shape and np.array_equal(a, c), '%s changed %s into %s', what,
                  c.tolist(), a.tolist())


def mut_cases(tier):
    q = tier == 'quick'
    for s in zoo.SPECS:
        for k in (2, 3, 4):
            if s.kmin <= k <= s.kmax:
                for c in pool(k, True)[:: 4 if q else 1]:
                    for ro in (0, 1):
                        yield (s.name, ro) + c


def mut_check(case, ob):
    name, ro, k, d, y, r = case
    s = zoo.BY_NAME[name]
    R = zoo.rows(k, d)
    labels = D.LABELS[k][len(y) % len(D.LABELS[k])]
    data = s.train(labels, y, R[list(r)].copy())
    names = sorted(data)
    arrays = [data[n] for n in names]
    copies = [a.copy() for a in arrays]
    if ro:
        frozen(*arrays)
    q = s.make()
    what = '%s, training labels %s rows %s' % (name, y, r)
    q.fit(**data)
    ob.op()
    unchanged(ob, arrays, copies, what + ': fit')
    for b in ((0,), (len(R) - 1, 1, 0, 1)):
        t = R[list(b)].copy()
        t = zoo.feats(t) if s.kind == 'x' else s.preds(labels, t)
        tc = t.copy()
        if ro:
            frozen(t)
        for _ in (1, 2):
            res, p = call(q.predict, t) if s.kind == 'x' else call(q.predict, None, predictions_test=t)
            ob.op()
            if res == 'exc' and not isinstance(p, s.refuse):
                raise p
            ob.state(type(p).__name__ if res == 'exc' else p)
            unchanged(ob, arrays + [t], copies + [tc], '%s: predict of %s' % (what, b))


# --- through classifiers; estimators and generators
def est_things():
    T = {}
    for s in zoo.SPECS:
        if s.kind in ('prob', 'crisp') and not s.name.startswith(('OVR', 'EoQ')):
            T['q:' + s.name] = s
    for s in zoo.SPECS:
        if s.name.startswith('OVR') and s.kind == 'prob' or s.kind == 'left':
            T['q:' + s.name] = s
    for n in ('fh', 'fhm', 'fht', 'ddag', 'ddagw', 'cv', 'cvr', 'pwk', 'ens', 'tree'):
        T['e:' + n] = None
    for n in ('prior', 'cov', 'both'):
        T['g:' + n] = None
    return T


THINGS = est_things()
DATA = {2: ([0., 1, 2, 5, 7, 9], [0, 0, 1, 0, 1, 1]), 3: ([0., 1, 2, 4, 5, 7, 9, 10], [0, 1, 0, 1, 2, 1, 2, 2])}


def thing_cases(tier):
    for n, s in THINGS.items():
        for k in (2, 3):
            if s is None and not (k == 2 and n in ('e:fh', 'e:fhm', 'e:fht', 'e:ddag', 'e:ddagw', 'e:tree')) or \
                    s is not None and s.kmin <= k <= s.kmax:
                for ro in (0, 1):
                    for li in range(len(D.LABELS[k])):
                        yield (n, k, ro, li)


def thing_check(case, ob):
    n, k, ro, li = case
    x, y = DATA[k]
    X = np.array(x).reshape(-1, 1)
    y = np.array(D.LABELS[k][li])[y]
    T = np.array([[0.5], [3.0], [6.5]])
    copies = [a.copy() for a in (X, y, T)]
    if ro:
        frozen(X, y, T)
    if n[0] == 'q':
        s = THINGS[n]
        q = s.make()
        if s.name.startswith('OVR'):
            e = [OneVsRestClassifier(Echo()), OneVsRestClassifier(Echo(power=2))]
        elif s.name.startswith('FH'):
            e = [FrankAndHallClassifier(Echo()), FrankAndHallMonotoneClassifier(Echo(power=2))]
        else:
            e = [Echo(), Echo(power=2)]
        q.set_params(estimator_test=e[1])
        if 'estimator_train' in q.get_params(deep=False):
            q.set_params(estimator_train=e[0])
        q.fit(X, y)
        ob.op()
        unchanged(ob, (X, y, T), copies, n + ' fit')
        r, p = call(q.predict, T)
        if r == 'exc' and not isinstance(p, s.refuse):
            raise p
        ob.op()
        ob.state(type(p).__name__ if r == 'exc' else p)
    elif n[0] == 'g':
        g = dict(prior=PriorShift_BagGenerator(n_bags=5, bag_size=4, random_state=1),
                 cov=CovariateShift_BagGenerator(n_bags=5, bag_size=4, random_state=1),
                 both=PriorAndCovariateShift_BagGenerator(n_bags=6, bag_size=4, random_state=1))[n[2:]]
        prev, idx = g.generate_bags(X, y)
        ob.op()
        ob.state(prev, idx)
    else:
        idx = np.array([[0, 1], [2, 3], [4, 5], [5, 5], [1, 0]])
        e = dict(fh=lambda: FrankAndHallClassifier(Echo()), fhm=lambda: FrankAndHallMonotoneClassifier(Echo()),
                 fht=lambda: FrankAndHallTreeClassifier(Echo()), ddag=lambda: DDAGClassifier(Echo()),
                 ddagw=lambda: DDAGClassifier(Echo(), predict_method='winner_node'),
                 cv=lambda: CV_estimator(Echo(), cv=StratifiedKFold(2)),
                 cvr=lambda: CV_estimator(Echo(), cv=StratifiedKFold(2), averaged_predictions=False),
                 pwk=lambda: PWK(n_neighbors=3), ens=lambda: EnsembleOfClassifiers(Echo()),
                 tree=lambda: OrdinalQuantificationTree(Echo()))[n[2:]]()
        if n == 'e:ens':
            ic = idx.copy()
            e.fit(X, y, idx)
            unchanged(ob, [idx], [ic], 'fit')
        else:
            e.fit(X, y)
        ob.op()
        for Z in (T, X):
            ob.state(e.predict(Z))
            if hasattr(e, 'predict_proba'):
                ob.state(e.predict_proba(Z))
            ob.op()
    unchanged(ob, (X, y, T), copies, n)


FAMILIES = [Family('bags', bag_cases, bag_check, 'every quantifier x problems of 2-4 classes x orders of bags of 2-9 '
                   'examples (all of them up to 3 examples), repeated 2 and 3 times'),
            Family('training', train_cases, train_check, 'quantifiers x problems x orders of 3-15 training examples'),
            Family('mutation', mut_cases, mut_check, 'every quantifier x problems, arrays compared with copies and read-only'),
            Family('classifiers', thing_cases, thing_check, 'quantifiers with classifiers, estimators and generators: arrays '
                   'compared with copies and read-only, all the label sets')]
