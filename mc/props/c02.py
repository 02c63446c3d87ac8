"""C02 the class labels are only names."""
import itertools

import numpy as np

from quantificationlib.baselines.ac import AC, PAC
from quantificationlib.baselines.cc import CC, PCC
from quantificationlib.decomposition.multiclass import OneVsRestQuantifier
from quantificationlib.decomposition.ordinal import FrankAndHallQuantifier
from quantificationlib.ensembles.eoq import EoQ
from quantificationlib.estimators.cross_validation import CV_estimator
from quantificationlib.estimators.ensembles import EnsembleOfClassifiers
from quantificationlib.estimators.frank_and_hall import (FrankAndHallClassifier, FrankAndHallMonotoneClassifier,
                                                         FrankAndHallTreeClassifier)
from quantificationlib.estimators.ordinal_ddag import DDAGClassifier
from quantificationlib.estimators.weighted_knn import PWK
from quantificationlib.multiclass.df import DFy
from quantificationlib.multiclass.em import EM
from quantificationlib.multiclass.energy import EDy
from quantificationlib.multiclass.friedman import FriedmanME
from quantificationlib.ordinal.ac_ordinal import ACOrdinal
from sklearn.multiclass import OneVsRestClassifier

from mc import domains as D, large, zoo
from mc.core import Family, call
from mc.stubs import Echo
from mc.zoo import FixedBags

ASSUMPTIONS = ['order of the classes without meaning: all the methods but the ordinal ones; binary histograms and quantiles '
               'are mirrored by the permutation, so their predictions avoid the cut points',
               'permutations are compared on problems with a unique solution (classes affinely independent), within the '
               'precision of the solvers']
MORE = {2: [(-5, -2), (0, 7), (10, 200), ('no', 'yes'), (np.int8(-1), np.int8(1)), (True + 0, 9)],
        3: [(-9, -8, 100), (10, 20, 30), ('hi', 'lo', 'mid'), ('A', 'a', 'b')],
        4: [(-4, -3, -2, -1), (5, 50, 500, 5000), ('n', 'nn', 'nnn', 'nnnn')],
        5: [(-2, -1, 0, 1, 2), (1, 2, 3, 4, 9), ('1', '2', '3', '4', '5')]}


def label_sets(k):
    return D.LABELS[k] + MORE[k]


def label_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4, 5):
        pr = {2: lambda: zoo.problems(2, 2, 2) + zoo.problems(2, 3, 4, 12 if q else 200),
              3: lambda: zoo.problems(3, 2, 3, 8 if q else 100) + zoo.problems(3, 3, 5, 10 if q else 100),
              4: lambda: zoo.problems(4, 2, 5, 6 if q else 80),
              5: lambda: zoo.problems(5, 1, 6, 4 if q else 40)}[k]()
        for s in zoo.SPECS:
            if s.kmin <= k <= s.kmax:
                for c in D.thin(pr, (6 if q else 60) if s.slow else len(pr)):
                    yield (s.name,) + c


def label_check(case, ob):
    name, k, d, y, r = case
    s = zoo.BY_NAME[name]
    R = zoo.rows(k, d)
    bags = [(0,), (len(R) // 2, len(R) - 1), tuple(range(len(R)))]
    ref = None
    for labels in label_sets(k):
        q = s.make()
        s.fit(q, labels, y, R[list(r)])
        ob.op()
        got = []
        for b in bags:
            res, p = call(s.predict, q, labels, R[list(b)])
            ob.op()
            got.append(type(p).__name__ if res == 'exc' else np.asarray(p, dtype=float))
        ob.state(got)
        if ref is None:
            ref = got
            continue
        for b, p, p0 in zip(bags, got, ref):
            what = '%s, training labels %s rows %s, bag %s, labels %s instead of %s' % (name, y, r, b, labels, D.LABELS[k][0])
            if isinstance(p, str) or isinstance(p0, str):
                ob.expect(isinstance(p, str) and isinstance(p0, str) and p == p0, '%s: %s, expected %s', what, p, p0)
            else:
                ob.close(p, p0, 1e-9, what)


# --- permutations of the classes
SKIP = ('PWK-1', 'PWK-2',                                     # ties between neighbours go to the first class
        'REGy-glm', 'REGX-glm')                               # bags drawn by class, iterative fit


def permutable(s, k):
    if s.order or s.name in SKIP:
        return False
    if s.name.startswith('EoQ'):
        return s.name.endswith(('mean', 'media'))
    if k == 4 and s.name.startswith(('FriedmanME', 'DFy-equal_count', 'DFX-equal_count')):   # may have several solutions
        return False
    if k == 2 and s.name.startswith(('REG', 'DFy-equal_count')):
        return False
    if s.name.endswith(('normal-1', 'normal-2', 'equal_count-1', 'equal_count-2')):   # degenerate bins
        return False
    return True


def build(k, noise, mult, d=3):
    """two certain examples and an arbitrary one for each class, repeated"""
    y, P = [], []
    R = zoo.rows(k, d)
    for c in range(k):
        for _ in range(mult[c]):
            y += [c] * 3
            P += [np.eye(k)[c], np.eye(k)[c], R[noise[c]]]
    order = sorted(range(len(y)), key=lambda i: (i * 7) % 10)
    return [y[i] for i in order], np.array(P)[order]


def perm_cases(tier):
    q = tier == 'quick'
    for k in (2, 3, 4):
        n = len(D.simplex(k, 3))
        noises = list(itertools.product(range(n), repeat=k)) if k < 4 else [tuple((i * 3 + j * j + i * j) % n for j in range(4))
                                                                            for i in range(40)]
        for s in zoo.SPECS:
            if s.kmin <= k <= s.kmax and permutable(s, k):
                for nz in D.thin(noises, (5 if s.slow else 16 if k < 4 else 4) if q else (40 if s.slow or k == 4 else 200)):
                    for mult in ((1,) * k, (1, 2, 1, 1)[:k]):
                        yield (s.name, k, nz, mult)


def perm_check(case, ob):
    name, k, noise, mult = case
    s = zoo.BY_NAME[name]
    y, P = build(k, noise, mult)
    labels = D.LABELS[k][1]
    R = zoo.rows(k, 3)
    parts = [P[[i for i in range(len(y)) if y[i] == c]][:3] for c in range(k)]
    mixes = D.simplex(k, 3)
    bags = [np.vstack([parts[c] for c in range(k) for _ in range(w[c])]) for w in D.thin(mixes, 3 if s.slow else 6)]
    if s.loss in ('closed', 'L2', 'reg', 'HD') and not (
            k == 2 and s.kind == 'prob' and ('normal' in s.name or s.name == 'DFy-CDF-HD')):
        bags += [R[[0]], R[[len(R) // 2, 1]], R]

    def run(pi):
        """class c is called pi[c]"""
        inv = np.argsort(pi)
        y2 = [pi[c] for c in y]
        q = s.make()
        lab = np.array(labels)

        def data(Q):
            if s.kind == 'x':
                return zoo.feats(Q)
            if s.kind == 'crisp':
                return lab[np.array(pi)[Q.argmax(axis=1)]]
            return Q[:, inv]
        if s.kind == 'x':
            q.fit(zoo.feats(P), lab[y2])
        else:
            q.fit(np.zeros((len(y), 1)), lab[y2], predictions_train=data(P))
        ob.op()
        res = []
        for b in bags:
            r, p = call(q.predict, data(b)) if s.kind == 'x' else call(q.predict, None, data(b))
            ob.op()
            res.append(type(p).__name__ if r == 'exc' else np.asarray(p, dtype=float)[list(pi)])
        return res

    perms = D.perms(k)
    if k == 4:
        perms = D.thin(perms, 8)
    ref = run(perms[0])
    ob.state(ref)
    tol = {'closed': 1e-9, 'L2': 2e-5, 'L1': 1e-4, 'HD': 3e-3, 'search': 3e-4, 'reg': 1e-7}[s.loss]
    for pi in perms[1:]:
        for b, p, p0 in zip(bags, run(pi), ref):
            what = '%s, training labels %s rows %s, bag %s, classes permuted %s' % (name, y, P.tolist(), b.tolist(), pi)
            if isinstance(p, str) or isinstance(p0, str):
                ob.expect(isinstance(p, str) and isinstance(p0, str) and p == p0, '%s: %s, expected %s', what, p, p0)
            else:
                ob.close(p, p0, tol, what)


# --- classifiers of the library inside the quantifiers
def cv(e):
    return CV_estimator(e, cv=2, averaged_predictions=False)


ESTS = {'plain': Echo, 'cv': lambda: cv(Echo()), 'FH': lambda: FrankAndHallClassifier(Echo()),
        'FH monotone': lambda: FrankAndHallMonotoneClassifier(Echo()), 'FH tree': lambda: FrankAndHallTreeClassifier(Echo()),
        'DDAG': lambda: DDAGClassifier(Echo()), 'DDAG winner': lambda: DDAGClassifier(Echo(), predict_method='winner_node'),
        'OVR': lambda: OneVsRestClassifier(Echo()), 'cv FH': lambda: cv(FrankAndHallClassifier(Echo())),
        'cv FH tree': lambda: cv(FrankAndHallTreeClassifier(Echo())), 'cv DDAG': lambda: cv(DDAGClassifier(Echo())),
        'PWK': lambda: PWK(n_neighbors=3)}
USES = {'CC': lambda e: CC(estimator_test=e), 'PCC': lambda e: PCC(estimator_test=e),
        'AC': lambda e: AC(estimator_train=e, estimator_test=e), 'PAC': lambda e: PAC(estimator_train=e, estimator_test=e),
        'EM': lambda e: EM(estimator_train=e, estimator_test=e), 'DFy': lambda e: DFy(estimator_train=e, estimator_test=e, distance='L2'),
        'FriedmanME': lambda e: FriedmanME(estimator_train=e, estimator_test=e, distance='L2'),
        'EDy': lambda e: EDy(estimator_train=e, estimator_test=e), 'ACOrdinal': lambda e: ACOrdinal(estimator_train=e, estimator_test=e),
        'OVR-PAC': lambda e: OneVsRestQuantifier(PAC(), estimator_train=e, estimator_test=e),
        'FH-PAC': lambda e: FrankAndHallQuantifier(PAC(), estimator_train=e, estimator_test=e),
        'EoQ': lambda e: EoQ(PAC(), 3, FixedBags(), ensemble_estimator_train=EnsembleOfClassifiers(e),
                             ensemble_estimator_test=EnsembleOfClassifiers(e))}


def est_cases(tier):
    for k in (2, 3, 4, 5):
        for e in ESTS:
            for u in USES:
                if u == 'OVR-PAC' and e != 'OVR' or u == 'FH-PAC' and e not in ('FH', 'FH monotone') or k == 2 and (
                        'FH' in e or u in ('FH-PAC', 'ACOrdinal', 'OVR-PAC')) or e == 'OVR' and u != 'OVR-PAC' or (
                        e.startswith('cv') and u == 'EoQ'):
                    continue
                for seed in range(3 if tier == 'quick' else 30):
                    yield (e, u, k, seed)


def est_check(case, ob):
    e, u, k, seed = case
    g = large.Gen(seed * 17 + k)
    y = g.shuffle([c for c in range(k) for _ in range(4 + g(3))])
    pts = lambda c: [c + g(16) / 8, g(8) / 4]
    X, Z = np.array([pts(c) for c in y]), np.array([pts(g(k)) for _ in range(9)])
    ref = None
    for labels in label_sets(k) + [large.labels(k, i) for i in range(4)]:
        q = USES[u](ESTS[e]())
        res, p = call(lambda: q.fit(X, np.array(labels)[y]).predict(Z))
        ob.op(2)
        got = type(p).__name__ if res == 'exc' else np.asarray(p, dtype=float)
        ob.state(got)
        if ref is None:
            ref = got
            continue
        what = '%s with classifier %s, labels %s, training classes %s' % (u, e, labels, y)
        if isinstance(got, str) or isinstance(ref, str):
            ob.expect(isinstance(got, str) and isinstance(ref, str) and got == ref, '%s: %s, expected %s', what, got, ref)
        else:
            ob.close(got, ref, 1e-9, what)


FAMILIES = [Family('labels', label_cases, label_check, 'every quantifier x problems of 2-5 classes x 8-11 label sets (integers, '
                   'negative, non-consecutive, strings)'),
            Family('permutations', perm_cases, perm_check, 'every quantifier without order x well-posed problems of 2-4 '
                   'classes x all the permutations of the classes'),
            Family('classifiers', est_cases, est_check, 'quantifiers with the classifiers of the library, 2-5 classes, the same label sets')]
